/* The library's logger keeps global state that is only safe with one rank per
 * process. The harness runs ranks as threads, so logging is switched off. */
#include <stddef.h>
#include "utils/mlog2.h"
#undef mlog
struct mlog_xstate mlog_xst;
int mlog_open(char *tag, int maxfac_hint, int default_mask, int stderr_mask, char *logfile, int msgbuf_len, int flags, int syslogfac) { return 0; }
void mlog_close(void) {}
void mlog(int flags, const char *fmt, ...) {}
