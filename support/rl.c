/* Linked into the monitored bic only: the boundary where readline() would hand
 * a line over.  With BIC_VERIF_RL set, lines come from stdin and each is
 * echoed as an event; "\x01text" asks the registered completion function for
 * the matches of "text", and "\x04" ends a session.  Otherwise the real readline() runs. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>

typedef char **complete_fn(const char *, int, int);
extern complete_fn *rl_attempted_completion_function;

char *readline(const char *prompt)
{
    static char *buf;
    static size_t cap;

    if (!getenv("BIC_VERIF_RL")) {
        static char *(*real)(const char *);
        if (!real)
            real = (char *(*)(const char *))dlsym(RTLD_NEXT, "readline");
        return real(prompt);
    }

    /* Otherwise, what the session prints stays in the buffer while it can. */
    int flush = !getenv("BIC_VERIF_RL_NOFLUSH");

    for (;;) {
        if (flush)
            fflush(stdout);
        fflush(stderr);
        ssize_t n = getline(&buf, &cap, stdin);
        if (n < 0) {
            printf("\x02" "E\n");
            fflush(stdout);
            return NULL;
        }
        if (n && buf[n - 1] == '\n')
            buf[--n] = 0;
        if (buf[0] == 4) {
            /* The end of this session, though not of the input. */
            printf("\x02" "E\n");
            fflush(stdout);
            return NULL;
        }
        if (buf[0] == 1) {
            char **m = rl_attempted_completion_function
                ? rl_attempted_completion_function(buf + 1, 0, n - 1) : NULL;
            printf("\x02" "C");
            for (char **p = m; p && *p; p++)
                printf("\x03%s", *p);
            printf("\n");
            for (char **p = m; p && *p; p++)
                free(*p);
            free(m);
            if (flush)
                fflush(stdout);
            fprintf(stderr, "\x02" "C\n");
            continue;
        }
        printf("\x02" "L\n");
        if (flush)
            fflush(stdout);
        fprintf(stderr, "\x02" "L\n");
        return strdup(buf);
    }
}

/* The user database, without writing to a real home directory. */
#include <pwd.h>
#include <sys/types.h>

struct passwd *getpwuid(uid_t uid)
{
    static struct passwd *(*real)(uid_t), p;

    if (!real)
        real = (struct passwd *(*)(uid_t))dlsym(RTLD_NEXT, "getpwuid");
    if (!getenv("BIC_VERIF_PWDIR"))
        return real(uid);
    p.pw_name = p.pw_passwd = p.pw_gecos = p.pw_shell = "";
    p.pw_uid = p.pw_gid = uid;
    p.pw_dir = getenv("BIC_VERIF_PWDIR");
    return &p;
}

/* With BIC_VERIF_STAT=FILE: what the process holds when it ends. */
#include <dirent.h>
#include <malloc.h>
#include <sys/wait.h>
#include <unistd.h>

extern void clear_history(void);
static pid_t verif_pid;

static void __attribute__((constructor)) verif_begin(void)
{
    verif_pid = getpid();
}

static void __attribute__((destructor)) verif_end(void)
{
    char *file = getenv("BIC_VERIF_STAT");
    struct mallinfo2 m;
    int fds = 0, zombies = 0, children = 0;
    pid_t p;
    FILE *f;
    DIR *d;

    if (!file || getpid() != verif_pid)
        return;

    clear_history();   /* grows with the session by design */
    m = mallinfo2();
    d = opendir("/proc/self/fd");
    if (d) {
        while (readdir(d))
            fds++;
        closedir(d);
    }
    while ((p = waitpid(-1, NULL, WNOHANG)) > 0)
        zombies++;
    children = p == 0;
    f = fopen(file, "a");
    if (!f)
        return;
    fprintf(f, "%zu %d %d %d\n", m.uordblks + m.hblkhd, fds - 3, zombies, children);
    fclose(f);
}
