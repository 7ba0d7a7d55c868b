// Stand-in for the process-wide logger, for checks that run several ranks in one process (a real rank has a process of its own).
extern "C" {
struct mlog_xstate { char *tag; void *facs; int cnt; char *node; };
struct mlog_xstate mlog_xst = {};
void mlog(int, const char *, ...) {}
void plfs_debug(const char *, ...) {}
int mlog_open(char *, int, int, int, char *, int, int, int) { return 0; }
void mlog_close(void) {}
int mlog_setlogmask(int, int) { return 0; }
int mlog_namefacility(int, char *, char *) { return 0; }
int mlog_allocfacility(char *, char *) { return 0; }
int mlog_str2pri(const char *) { return 0; }
void mlog_setmasks(char *, int) {}
}
