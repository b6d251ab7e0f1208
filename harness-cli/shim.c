/* Records the line settings a program gives to its serial port: a pseudo
 * terminal has none.  Preloaded into the program; TCSETS2 and TCGETS2 only. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
struct t2 { unsigned iflag, oflag, cflag, lflag; unsigned char line, cc[19]; unsigned ispeed, ospeed; };
static struct t2 kept;
static int have;
int ioctl(int fd, unsigned long req, ...)
{
    static int (*real)(int, unsigned long, ...);
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (!real) real = (int (*)(int, unsigned long, ...))dlsym(RTLD_NEXT, "ioctl");
    if ((unsigned)req == 0x402C542Bu) {
        char b[80];
        const char *f = getenv("VERIF_SHIM");
        memcpy(&kept, arg, sizeof kept);
        have = 1;
        int o = f ? open(f, O_WRONLY | O_CREAT | O_APPEND, 0600) : -1;
        if (o >= 0) {
            int n = snprintf(b, sizeof b, "%u %u %u\n", kept.cflag, kept.ispeed, kept.ospeed);
            if (write(o, b, n) != n) abort();
            close(o);
        }
        real(fd, req, arg);
        return 0;
    }
    int r = real(fd, req, arg);
    if ((unsigned)req == 0x802C542Au && r == 0 && have) memcpy(arg, &kept, sizeof kept);
    return r;
}
