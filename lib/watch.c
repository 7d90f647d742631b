/* Which parts of watched memory does this process read?  Pages are made
   inaccessible; every access faults, is noted, and is then single-stepped. */
#define _GNU_SOURCE
#include <signal.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>

#define MAX 256
#define PAGE 4096UL
#define TF 0x100

static struct { uintptr_t a, n; uint8_t *seen; } area[MAX];
static int areas, watching, stepping;
static long budget, count;

static void protect(int prot)
{
    for (int i = 0; i < areas; i++)
        mprotect((void *) area[i].a, (area[i].n + PAGE - 1) / PAGE * PAGE, prot);
}

static void segv(int sig, siginfo_t *info, void *context)
{
    ucontext_t *u = context;
    uintptr_t x = (uintptr_t) info->si_addr;

    if (watching)
        for (int i = 0; i < areas; i++)
            if (x >= area[i].a && x < area[i].a + (area[i].n + PAGE - 1) / PAGE * PAGE) {
                if (!(u->uc_mcontext.gregs[REG_ERR] & 2) && x < area[i].a + area[i].n)
                    area[i].seen[(x - area[i].a) / 8] = 1;
                if (++count > budget) { /* enough seen for now */
                    watching = 0;
                    protect(PROT_READ | PROT_WRITE);
                    return;
                }
                mprotect((void *) (x & ~(PAGE - 1)), PAGE, PROT_READ | PROT_WRITE);
                stepping = 1;
                u->uc_mcontext.gregs[REG_EFL] |= TF;
                return;
            }
    signal(SIGSEGV, SIG_DFL);
}

static void trap(int sig, siginfo_t *info, void *context)
{
    ucontext_t *u = context;
    u->uc_mcontext.gregs[REG_EFL] &= ~(long) TF;
    if (stepping) {
        stepping = 0;
        if (watching)
            protect(PROT_NONE);
    }
}

int watch_init(long n)
{
    struct sigaction s;
    memset(&s, 0, sizeof s);
    s.sa_flags = SA_SIGINFO | SA_NODEFER;
    s.sa_sigaction = segv;
    if (sigaction(SIGSEGV, &s, 0)) return 1;
    s.sa_sigaction = trap;
    if (sigaction(SIGTRAP, &s, 0)) return 1;
    budget = n;
    return 0;
}

int watch_add(void *a, unsigned long n, uint8_t *seen)
{
    if (areas == MAX) return -1;
    area[areas].a = (uintptr_t) a;
    area[areas].n = n;
    area[areas].seen = seen;
    return areas++;
}

void watch_on(void) { if (areas) { count = 0; watching = 1; protect(PROT_NONE); } }
void watch_off(void) { if (areas) { watching = 0; protect(PROT_READ | PROT_WRITE); } }
void watch_clear(void) { watch_off(); areas = 0; }
