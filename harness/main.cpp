// Case loop shared by all checks.
//   check --seed S --from A --count N --stride K --out FILE --cur FILE [--stop SECONDS] [--thorough] [-v]
#include "core.h"
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

// Time budget: a timer rather than a clock, because checks may replace the clock.
static volatile sig_atomic_t s_stop = 0;
static void onAlarm(int) { s_stop = 1; }

static void jsonStr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; ++s) {
        const unsigned char ch = (unsigned char)*s;
        if (ch == '"' || ch == '\\') fprintf(f, "\\%c", ch);
        else if (ch < 0x20) fprintf(f, "\\u%04x", ch);
        else fputc(ch, f);
    }
    fputc('"', f);
}

int main(int argc, char **argv) {
    long from = 0, count = 1, stride = 1;
    uint64_t seed = 1;
    const char *out = nullptr, *cur = nullptr;
    vf::Ctx c;
    for (int i = 1; i < argc; ++i) {
        auto is = [&](const char *s) { return !strcmp(argv[i], s); };
        if (is("--seed") && i + 1 < argc) seed = strtoull(argv[++i], nullptr, 10);
        else if (is("--from") && i + 1 < argc) from = strtol(argv[++i], nullptr, 10);
        else if (is("--count") && i + 1 < argc) count = strtol(argv[++i], nullptr, 10);
        else if (is("--stride") && i + 1 < argc) stride = strtol(argv[++i], nullptr, 10);
        else if (is("--out") && i + 1 < argc) out = argv[++i];
        else if (is("--cur") && i + 1 < argc) cur = argv[++i];
        else if (is("--stop") && i + 1 < argc) {
            struct sigaction sa;
            memset(&sa, 0, sizeof sa);
            sa.sa_handler = onAlarm;
            sa.sa_flags = SA_RESTART;
            sigaction(SIGALRM, &sa, nullptr);
            alarm((unsigned)atoi(argv[++i]));
        }
        else if (is("--thorough")) c.thorough = true;
        else if (is("-v")) c.verbose = true;
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 64; }
    }
    int curFd = cur ? open(cur, O_WRONLY | O_CREAT | O_TRUNC, 0600) : -1;

    uint64_t idHash = 77;
    for (const char *p = kCheckId; *p; ++p) idHash = vf::mix(idHash, (uint64_t)*p);

    std::vector<uint64_t> sigs;
    std::vector<std::pair<long, uint64_t>> traces;
    struct Sample { long idx; char text[1200]; };
    std::vector<Sample> samples;
    struct Viol { long idx; vf::CaseFail f; };
    std::vector<Viol> viols;
    long executed = 0;

    for (long k = 0; k < count && !s_stop; ++k) {
        const long idx = from + k * stride;
        if (curFd >= 0) {
            char b[32];
            const int n = snprintf(b, sizeof b, "%20ld\n", idx);
            if (pwrite(curFd, b, n, 0) < 0) { /* informational only */ }
        }
        c.seed = seed;
        c.index = idx;
        c.rng = vf::Rng(vf::mix(vf::mix(idHash, seed), (uint64_t)idx));
        c.nontrivial = false;
        c.sig = 0;
        c.trace = 0;
        c.sampleBuf[0] = 0;
        try {
            run_case(c);
        } catch (vf::CaseFail &f) {
            if (viols.size() < 40) viols.push_back(Viol{idx, f});
            if (c.verbose) fprintf(stderr, "case %ld: %s: %s\n", idx, f.key, f.msg);
        }
        ++executed;
        if (c.nontrivial) sigs.push_back(c.sig);
        if (c.trace) traces.push_back({idx, c.trace});
        if (c.sampleBuf[0] && samples.size() < 2) {
            Sample s; s.idx = idx; memcpy(s.text, c.sampleBuf, sizeof s.text);
            samples.push_back(s);
        }
    }

    FILE *f = out ? fopen(out, "w") : stdout;
    if (!f) return 65;
    fprintf(f, "{\"executed\": %ld, \"counters\": {", executed);
    for (size_t i = 0; i < c.counters.size(); ++i) {
        if (i) fputs(", ", f);
        jsonStr(f, c.counters[i].name);
        fprintf(f, ": %lld", c.counters[i].v);
    }
    fputs("}, \"sigs\": [", f);
    for (size_t i = 0; i < sigs.size(); ++i)
        fprintf(f, "%s\"%016llx\"", i ? ", " : "", (unsigned long long)sigs[i]);
    fputs("], \"traces\": {", f);
    for (size_t i = 0; i < traces.size(); ++i)
        fprintf(f, "%s\"%ld\": \"%016llx\"", i ? ", " : "", traces[i].first,
                (unsigned long long)traces[i].second);
    fputs("}, \"samples\": [", f);
    for (size_t i = 0; i < samples.size(); ++i) {
        fprintf(f, "%s{\"case\": %ld, \"what\": ", i ? ", " : "", samples[i].idx);
        jsonStr(f, samples[i].text);
        fputc('}', f);
    }
    fputs("], \"violations\": [", f);
    for (size_t i = 0; i < viols.size(); ++i) {
        fprintf(f, "%s{\"case\": %ld, \"key\": ", i ? ", " : "", viols[i].idx);
        jsonStr(f, viols[i].f.key);
        fputs(", \"msg\": ", f);
        jsonStr(f, viols[i].f.msg);
        fputc('}', f);
    }
    fputs("]}\n", f);
    if (f != stdout) fclose(f);
    return viols.empty() ? 0 : 3;
}
