// main(): <out.json> <seed> <tier> <scratch> <first> <stride> <count> [replay]
#pragma once
#include "common.hpp"
namespace vh {
static Ctx* g_ctx = nullptr;
static std::string g_progress;
static int g_pfd = -1;
inline void on_prof(int) { const char m[] = "HANG\n"; if (g_pfd >= 0) (void)!write(g_pfd, m, sizeof m - 1); _exit(77); }
inline void write_report(Ctx& c, const char* path, bool done) {
    std::string tmp = std::string(path) + ".tmp";
    FILE* f = fopen(tmp.c_str(), "w"); if (!f) _exit(3);
    fprintf(f, "{\"done\": %s, \"evaluations\": %ld, \"skipped\": %ld, \"counts\": {", done ? "true" : "false", c.evaluations, c.skipped);
    bool first = true;
    for (auto& k : c.counts) { fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", jesc(k.first).c_str(), k.second); first = false; }
    fprintf(f, "}, \"distinct\": ["); first = true;
    for (auto h : c.distinct) { fprintf(f, "%s\"%016llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(f, "], \"samples\": ["); first = true;
    for (auto& s : c.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    fprintf(f, "], \"digests\": {"); first = true;
    for (auto& d : c.digests) { fprintf(f, "%s\"%d\": \"%016llx/%ld\"", first ? "" : ",", d.first, (unsigned long long)d.second.first, d.second.second); first = false; }
    fprintf(f, "}, \"violations\": ["); first = true;
    for (auto& v : c.viol) { fprintf(f, "%s{\"key\": \"%s\", \"idx\": %d, \"detail\": \"%s\"}", first ? "" : ",\n", jesc(v.key).c_str(), v.idx, jesc(v.detail).c_str()); first = false; }
    fprintf(f, "]}\n"); fclose(f);
    rename(tmp.c_str(), path);
}
} // namespace vh

int main(int argc, char** argv) {
    using namespace vh;
    if (argc < 8) { fprintf(stderr, "usage\n"); return 3; }
    Ctx c; g_ctx = &c;
    c.seed = strtoull(argv[2], 0, 10);
    c.thorough = !strcmp(argv[3], "thorough");
    c.scratch = argv[4];
    int first = atoi(argv[5]), stride = atoi(argv[6]), count = atoi(argv[7]);
    c.replay = argc > 8;
    std::string pp = std::string(argv[1]) + ".progress";
    g_pfd = open(pp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
    static struct NullBuf : std::streambuf { int overflow(int ch) override { return ch == EOF ? 0 : ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } } nb;
    std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb);
    signal(SIGPROF, on_prof);
    double cpu = 120; if (const char* e = getenv("VH_CASE_CPU")) cpu = atof(e);
    for (int i = first; i < count; i += stride) {
        dprintf(g_pfd, "CASE %d\n", i);
        struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long)cpu; setitimer(ITIMER_PROF, &it, 0);
        c.idx = i; c.note = str(i); c.rng = Rng(mix(mix(c.seed, 0xC0FFEE), i));
        try { run_case(c); }
        catch (OutOfDomain& e) { c.count(std::string("ended: ") + e.what()); }
        catch (StepLimit&) { c.count("ended: step limit"); }
        catch (std::exception& e) { c.fail(std::string("exception:") + typeid(e).name(), e.what()); }
    }
    struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, 0);
    finish(c);
    write_report(c, argv[1], true);
    dprintf(g_pfd, "DONE\n");
    fflush(stdout);
    _exit(0);
}
