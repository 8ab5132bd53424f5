#define _GNU_SOURCE
#include "mc.h"
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/prctl.h>

int mc_thorough, mc_shard, mc_nshards = 1;
const char *mc_scratch = "/nonexistent", *mc_repo = "/repo";
static long long mc_only = -1, counter = -1;
static const char *out_path, *known_path, *state_path;
static char *journal; /* 16 bytes index, then text */
#define JSZ 65536
static int wd = 30;
static FILE *outf;
static void auto_sample(void);

static void on_prof(int s)
{
    (void)s;
    static const char m[] = "mc: CPU watchdog expired (hang)\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(78);
}
void mc_watchdog(int s)
{
    wd = s;
    struct itimerval t = {{0, 0}, {s, 0}};
    setitimer(ITIMER_PROF, &t, NULL);
}
bool mc_mine(void)
{
    counter++;
    if (mc_only >= 0)
        return counter == mc_only;
    return counter % mc_nshards == mc_shard;
}
void mc_case(const char *fmt, ...)
{
    va_list ap;
    static unsigned long calls;
    static struct timeval last;
    if (getenv("MC_SLOW")) {
        struct timeval now;
        gettimeofday(&now, NULL);
        double d = now.tv_sec - last.tv_sec + (now.tv_usec - last.tv_usec) / 1e6;
        if (last.tv_sec && d > atof(getenv("MC_SLOW"))) fprintf(stderr, "SLOW %.2f %s\n", d, journal + 32);
        last = now;
    }
    if (++calls == 20 || calls == 3000 || calls == 400000)
        auto_sample();
    va_start(ap, fmt);
    snprintf(journal, 32, "%lld\n", counter);
    vsnprintf(journal + 32, JSZ - 32, fmt, ap);
    va_end(ap);
    static int n;
    if ((n++ & 15) == 0)
        mc_watchdog(wd);
}
void mc_case_add(const char *fmt, ...)
{
    va_list ap;
    size_t l = strlen(journal + 32);
    va_start(ap, fmt);
    vsnprintf(journal + 32 + l, JSZ - 32 - l, fmt, ap);
    va_end(ap);
}
static uint64_t sets_n[2], sets_cap[2], *sets[2];
static bool set_add(int w, uint64_t h)
{
    if (!h) h = 0x9e3779b97f4a7c15ull;
    if (sets_n[w] * 2 >= sets_cap[w]) {
        uint64_t nc = sets_cap[w] ? sets_cap[w] * 2 : 4096, *ns = calloc(nc, 8);
        if (!ns) mc_die("oom");
        for (uint64_t i = 0; i < sets_cap[w]; i++)
            if (sets[w][i]) {
                uint64_t k = sets[w][i] & (nc - 1);
                while (ns[k]) k = (k + 1) & (nc - 1);
                ns[k] = sets[w][i];
            }
        free(sets[w]);
        sets[w] = ns;
        sets_cap[w] = nc;
    }
    uint64_t k = h & (sets_cap[w] - 1);
    while (sets[w][k]) {
        if (sets[w][k] == h) return false;
        k = (k + 1) & (sets_cap[w] - 1);
    }
    sets[w][k] = h;
    sets_n[w]++;
    return true;
}
bool mc_state(uint64_t h) { return set_add(0, h); }
bool mc_distinct(uint64_t h) { return set_add(1, h); }
uint64_t mc_hash(const void *p, size_t n, uint64_t seed)
{
    const uint8_t *b = p;
    uint64_t h = seed ^ 0xcbf29ce484222325ull ^ (n * 0x9E3779B97F4A7C15ull);
    while (n >= 8) {
        uint64_t v;
        memcpy(&v, b, 8);
        h = (h ^ v) * 0xff51afd7ed558ccdull;
        h ^= h >> 32;
        b += 8;
        n -= 8;
    }
    while (n--) {
        h = (h ^ *b++) * 0xc4ceb9fe1a85ec53ull;
        h ^= h >> 29;
    }
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}
static uint64_t trans, evals;
void mc_trans(uint64_t n) { trans += n; }
void mc_eval(uint64_t n) { evals += n; }
static struct { char name[48]; uint64_t n; } notes[64];
static int n_notes;
void mc_note(const char *name, uint64_t n)
{
    for (int i = 0; i < n_notes; i++)
        if (!strcmp(notes[i].name, name)) { notes[i].n += n; return; }
    if (n_notes < 64) {
        snprintf(notes[n_notes].name, 48, "%s", name);
        notes[n_notes++].n = n;
    }
}
static void emit(const char *tag, const char *s)
{
    fprintf(outf, "%s\t", tag);
    for (; *s; s++)
        fputc(*s == '\n' || *s == '\t' || (unsigned char)*s < 32 ? ' ' : *s, outf);
    fputc('\n', outf);
    fflush(outf);
}
static int n_samples;
static void auto_sample(void) { if (mc_shard < 3) emit("SAMPLE", journal + 32); }
void mc_sample(const char *fmt, ...)
{
    char b[1024];
    va_list ap;
    if (n_samples++ >= 4) return;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    emit("SAMPLE", b);
}
void mc_fail(const char *fmt, ...)
{
    static char b[8192];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    fprintf(outf, "VIOLIDX\t%lld\n", counter);
    emit("VIOLCASE", journal + 32);
    emit("VIOL", b);
    _exit(10);
}
bool mc_known(const char *key, const char *fmt, ...)
{
    char b[2048], line[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    FILE *f = known_path ? fopen(known_path, "r") : NULL;
    bool hit = false;
    while (f && fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n")] = 0;
        if (!strcmp(line, key)) hit = true;
    }
    if (f) fclose(f);
    if (hit) {
        emit("KNOWN", key);
        return true;
    }
    mc_fail("[%s] %s", key, b);
    return false;
}
void mc_die(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    fprintf(stderr, "mc: harness error: ");
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    va_end(ap);
    _exit(90);
}
const char *mc_hex(const void *p, size_t n)
{
    static char ring[8][1100];
    static int k;
    char *o = ring[k++ & 7];
    const uint8_t *b = p;
    size_t m = n > 512 ? 512 : n;
    for (size_t i = 0; i < m; i++) sprintf(o + 2 * i, "%02x", b[i]);
    o[2 * m] = 0;
    if (m < n) strcat(o, "..");
    return o;
}
void mc_write_file(const char *path, const void *data, size_t n)
{
    int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0) mc_die("open %s: %s", path, strerror(errno));
    size_t o = 0;
    while (o < n) {
        ssize_t w = write(fd, (const char *)data + o, n - o);
        if (w <= 0) mc_die("write %s", path);
        o += w;
    }
    close(fd);
}
uint8_t *mc_read_file(const char *path, size_t *n)
{
    int fd = open(path, O_RDONLY);
    struct stat st;
    if (fd < 0) return NULL;
    if (fstat(fd, &st)) mc_die("fstat");
    uint8_t *b = malloc(st.st_size + 1);
    size_t o = 0;
    while (o < (size_t)st.st_size) {
        ssize_t r = read(fd, b + o, st.st_size - o);
        if (r <= 0) break;
        o += r;
    }
    close(fd);
    *n = o;
    return b;
}
const char *mc_path(const char *name)
{
    static char ring[16][512];
    static int k;
    char *o = ring[k++ & 15];
    snprintf(o, 512, "%s/%s", mc_scratch, name);
    return o;
}
int main(int argc, char **argv)
{
    const char *jp = NULL;
    for (int i = 1; i + 1 < argc; i += 2) {
        const char *a = argv[i], *v = argv[i + 1];
        if (!strcmp(a, "--tier")) mc_thorough = !strcmp(v, "thorough");
        else if (!strcmp(a, "--shard")) sscanf(v, "%d/%d", &mc_shard, &mc_nshards);
        else if (!strcmp(a, "--only")) mc_only = atoll(v);
        else if (!strcmp(a, "--out")) out_path = v;
        else if (!strcmp(a, "--journal")) jp = v;
        else if (!strcmp(a, "--scratch")) mc_scratch = v;
        else if (!strcmp(a, "--repo")) mc_repo = v;
        else if (!strcmp(a, "--known")) known_path = v;
        else if (!strcmp(a, "--states")) state_path = v;
    }
    if (out_path) prctl(PR_SET_PDEATHSIG, SIGKILL); /* do not outlive check.py */
    outf = out_path ? fopen(out_path, "w") : stdout;
    if (!outf) mc_die("out");
    if (jp) {
        int fd = open(jp, O_CREAT | O_RDWR | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, JSZ)) mc_die("journal");
        journal = mmap(NULL, JSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (journal == MAP_FAILED) mc_die("journal map");
        close(fd);
    } else
        journal = calloc(1, JSZ);
    signal(SIGPROF, on_prof);
    mc_case("start");
    if (mc_run()) mc_die("mc_run failed");
    fprintf(outf, "STAT\ttransitions\t%llu\n", (unsigned long long)trans);
    fprintf(outf, "STAT\tevaluations\t%llu\n", (unsigned long long)evals);
    fprintf(outf, "STAT\tcases\t%lld\n", counter + 1);
    for (int i = 0; i < n_notes; i++)
        fprintf(outf, "NOTE\t%s\t%llu\n", notes[i].name, (unsigned long long)notes[i].n);
    if (state_path) {
        FILE *f = fopen(state_path, "wb");
        if (!f) mc_die("states");
        for (int w = 0; w < 2; w++) {
            fwrite(&sets_n[w], 8, 1, f);
            for (uint64_t i = 0; i < sets_cap[w]; i++)
                if (sets[w][i]) fwrite(&sets[w][i], 8, 1, f);
        }
        fclose(f);
    }
    fprintf(outf, "DONE\n");
    fflush(outf);
    _exit(0);
}
