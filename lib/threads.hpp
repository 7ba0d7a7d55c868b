// Threads made by the library: each belongs to the rank of the thread that made it, and the ones still alive are counted.
#pragma once
#include <atomic>
extern std::atomic<int> hx_live_threads; // threads started from code in this executable (not by LevelDB or RocksDB) that have not ended
