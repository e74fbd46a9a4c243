// Runner shared by all harness binaries: drives the cases in a forked worker,
// confirms and shrinks failures, replays saved cases.
#include "pbt.hpp"

// Library code that seeds itself from std::random_device gets a fixed stream,
// so that a run is a function of the code and the seed.
static unsigned long long pbt_rd_state = 12345;
std::random_device::result_type std::random_device::_M_getval() { return (std::random_device::result_type)pbt::mix(++pbt_rd_state); }

namespace pbt {
inline Shared* shared_area() { void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return (Shared*)p; }
inline void set_msg(Shared* sh, const std::string& m) { size_t k = std::min(m.size(), sizeof(sh->msg) - 1); memcpy(sh->msg, m.data(), k); sh->msg[k] = 0; }
inline bool run_one(const Test& t, Gen& g, Shared* sh) {
    try { g.grow(t.grow, t.one_in); t.f(g); return true; }
    catch (const Failure& f) { set_msg(sh, f.msg); }
    catch (const std::exception& e) { set_msg(sh, std::string("uncaught exception: ") + e.what()); }
    catch (...) { set_msg(sh, "uncaught exception"); }
    return false;
}
inline double cpu_of(pid_t pid) {
    char path[64]; snprintf(path, 64, "/proc/%d/stat", int(pid));
    FILE* f = fopen(path, "r"); if (!f) return 0;
    char buf[2048]; size_t k = fread(buf, 1, 2047, f); buf[k] = 0; fclose(f);
    char* p = strrchr(buf, ')'); if (!p) return 0;
    unsigned long ut = 0, stt = 0; sscanf(p + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &stt);
    return double(ut + stt) / sysconf(_SC_CLK_TCK);
}
enum Outcome { OK, FAILED, CRASHED, HANG };
inline Outcome replay_once(const Test& t, const std::vector<u64>& ch, Shared* sh, double cpu_limit, bool verbose, std::string* notes, const char* errfile) {
    int fd[2] = { -1, -1 };
    if (verbose && pipe(fd)) fd[0] = fd[1] = -1;
    sh->msg[0] = 0; sh->status = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        if (fd[0] >= 0) close(fd[0]);
        int e = open(errfile ? errfile : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644); if (e >= 0) { dup2(e, 2); dup2(e, 1); }
        rlimit rl{ rlim_t(cpu_limit + 1), rlim_t(cpu_limit + 2) }; setrlimit(RLIMIT_CPU, &rl);
        Gen g(sh, ch, verbose);
        bool ok = run_one(t, g, sh);
        if (fd[1] >= 0) { std::string n = g.notes; if (n.size() > 60000) n.resize(60000); size_t o = 0; while (o < n.size()) { ssize_t k = write(fd[1], n.data() + o, n.size() - o); if (k <= 0) break; o += k; } close(fd[1]); }
        sh->status = ok ? 2 : 1;
        _exit(0);
    }
    if (fd[1] >= 0) close(fd[1]);
    if (fd[0] >= 0) { std::string n; char b[4096]; ssize_t k; while ((k = read(fd[0], b, 4096)) > 0) n.append(b, k); close(fd[0]); if (notes) *notes = n; }
    int ws; waitpid(pid, &ws, 0);
    if (WIFSIGNALED(ws) && (WTERMSIG(ws) == SIGXCPU || (WTERMSIG(ws) == SIGKILL && cpu_limit < 1e6))) return HANG;
    if (sh->status == 2) return OK;
    if (sh->status == 1) return FAILED;
    return CRASHED;
}
inline std::string jesc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += char(c); } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += char(c); }
    return o + "\"";
}
inline std::vector<u64> shrink(const Test& t, std::vector<u64> ch, Shared* sh, Outcome, double budget_s) {
    auto t0 = std::chrono::steady_clock::now();
    auto over = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget_s; };
    auto bad = [&](const std::vector<u64>& c) { auto o = replay_once(t, c, sh, 5, false, nullptr, nullptr); return o == FAILED || o == CRASHED; };
    auto take = [&](std::vector<u64>& c) { if (!bad(c)) return false; std::vector<u64> used(sh->ch, sh->ch + u64(sh->nch)); ch = used.size() < c.size() ? used : c; return true; };
    bool progress = true;
    while (progress && !over()) {
        progress = false;
        for (size_t len = std::max<size_t>(1, ch.size() / 2); len >= 1 && !over(); len /= 2) {
            for (size_t i = 0; i + len <= ch.size() && !over();) {
                auto c = ch; c.erase(c.begin() + i, c.begin() + i + len);
                if (take(c)) progress = true; else i += len;
            }
            if (len == 1) break;
        }
        for (size_t len = std::max<size_t>(1, ch.size() / 2); len >= 1 && !over(); len /= 2) {
            for (size_t i = 0; i + len <= ch.size() && !over(); i += len) {
                if (std::all_of(ch.begin() + i, ch.begin() + i + len, [](u64 x) { return x == 0; })) continue;
                auto c = ch; std::fill(c.begin() + i, c.begin() + i + len, 0);
                if (take(c)) progress = true;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < ch.size() && !over(); ++i) {
            u64 lo = 0, hi = ch[i];
            while (lo < hi && !over()) {
                u64 m = lo + (hi - lo) / 2; auto c = ch; if (i >= c.size()) break; c[i] = m;
                if (take(c)) { hi = m; progress = true; } else lo = m + 1;
            }
        }
        // delete one choice while decrementing an earlier one (lengths)
        for (size_t i = 0; i < ch.size() && !over() && ch.size() < 200; ++i) if (ch[i] > 0 && ch[i] < 1000) {
            for (size_t k = 1; k <= 4 && !over(); ++k) {
                bool hit = false;
                for (size_t j = i + 1; j + k <= ch.size() && !over(); ++j) {
                    auto c = ch; c[i]--; c.erase(c.begin() + j, c.begin() + j + k);
                    if (take(c)) { progress = hit = true; break; }
                }
                if (hit || i >= ch.size()) break;
            }
            if (i >= ch.size()) break;
        }
    }
    return ch;
}

struct Opts { std::string test, out, replay, replay_out; u64 seed = 1; double mult = 1; double cap_s = 60; double hang_s = 25; u64 shard = 0, shards = 1, prefix = ~0ULL; bool list = false; };

// runs cases o.shard, o.shard+o.shards, ... up to and including `upto`
inline int run_prefix(const Test& t, const Opts& o, u64 upto, u64& where, std::string& msg) {
    Shared* sh = shared_area();
    u64 base = mix(hash_str(t.name) ^ mix(o.seed));
    sh->status = 0; sh->case_idx = ~0ULL;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int e = open("/dev/null", O_WRONLY); dup2(e, 2); dup2(e, 1);
        rlimit rl{ rlim_t(200), rlim_t(201) }; setrlimit(RLIMIT_CPU, &rl);
        for (u64 i = o.shard; i <= upto; i += o.shards) { sh->case_idx = i; Gen g(sh, mix(base + i * 0x2545F4914F6CDD1DULL)); if (!run_one(t, g, sh)) { sh->status = 1; _exit(0); } }
        sh->status = 2; _exit(0);
    }
    int ws; waitpid(pid, &ws, 0);
    where = sh->case_idx; msg = sh->msg; u64 st = sh->status;
    munmap(sh, sizeof(Shared));
    return st == 2 ? 0 : 1;
}
inline int run_test(const Test& t, const Opts& o, std::string& json) {
    Shared* sh = shared_area();
    // tests of a handful of (large or exhaustive) cases are not multiplied in the quick tier
    u64 n = t.cases <= 4 ? t.cases * (o.mult > 10 ? 3 : 1) : std::max<u64>(1, u64(double(t.cases) * o.mult));
    u64 base = mix(hash_str(t.name) ^ mix(o.seed));
    auto seed_of = [&](u64 i) { return mix(base + i * 0x2545F4914F6CDD1DULL); };
    sh->case_idx = ~0ULL; sh->done = 0; sh->nontrivial = 0; sh->status = 0;
    auto t0 = std::chrono::steady_clock::now();
    auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int e = open("/dev/null", O_WRONLY); dup2(e, 2); dup2(e, 1);
        std::unordered_set<u64> seen; std::map<std::string, u64> lab; u64 done = 0; std::map<std::string, u64> labcount;
        for (u64 i = o.shard; i < n; i += o.shards) {
            sh->case_idx = i;
            Gen g(sh, seed_of(i));
            if (!run_one(t, g, sh)) { sh->status = 1; _exit(0); }
            sh->done = ++done;
            if (g.nt && seen.insert(g.h).second) sh->nontrivial = seen.size();
            for (auto& l : g.labels) ++lab[l];
            if (el() > o.cap_s) { sh->capped = 1; break; }
        }
        std::string s; for (auto& [k, v] : lab) s += (s.empty() ? "" : ",") + jesc(k) + ":" + std::to_string(v);
        if (s.size() < sizeof(sh->labels)) strcpy(sh->labels, s.c_str());
        sh->status = 2;
        _exit(0);
    }
    // watch
    Outcome oc = OK; u64 last = ~0ULL; double last_cpu = 0; int ws = 0;
    for (int tick = 0;; ++tick) {
        pid_t r = waitpid(pid, &ws, WNOHANG);
        if (r == pid) break;
        usleep(tick < 200 ? 2000 : 50000);
        if (tick % 20 == 0) {
            u64 c = sh->case_idx; double cpu = cpu_of(pid);
            if (c != last) { last = c; last_cpu = cpu; }
            else if (cpu - last_cpu > o.hang_s) { kill(pid, SIGKILL); waitpid(pid, &ws, 0); oc = HANG; break; }
        }
    }
    if (oc != HANG) oc = sh->status == 2 ? OK : sh->status == 1 ? FAILED : CRASHED;
    u64 done = sh->done, nt = sh->nontrivial, capped = sh->capped, ci = sh->case_idx; std::string labels = sh->labels;
    int rc = 0;
    std::string extra;
    if (oc != OK) {
        std::vector<u64> ch(sh->ch, sh->ch + u64(sh->nch));
        std::string first = sh->msg;
        // confirm by replay
        int again = 0; Outcome last_oc = OK;
        int times = oc == HANG ? 1 : 3;
        for (int k = 0; k < times; ++k) { auto x = replay_once(t, ch, sh, oc == HANG ? o.hang_s : 60, false, nullptr, nullptr); if (x != OK) ++again, last_oc = x; }
        std::string how = oc == HANG ? "hang" : oc == CRASHED ? "crash" : "check failed";
        if (again == times) {
            if (last_oc != HANG) ch = shrink(t, ch, sh, oc, 20);
            std::string notes, errfile = o.replay_out + ".stderr";
            auto x = replay_once(t, ch, sh, oc == HANG ? o.hang_s : 60, true, &notes, errfile.c_str());
            std::string msg = sh->msg;
            if (x == CRASHED) { std::ifstream f(errfile); std::string ln; int k = 0; while (std::getline(f, ln) && k < 12) { if (ln.empty() || ln.find("=====") == 0) continue; msg += (msg.empty() ? "" : " / ") + ln; ++k; } }
            if (x == HANG) msg = "did not terminate within " + std::to_string(o.hang_s) + " s of CPU time";
            if (msg.empty()) msg = first;
            unlink(errfile.c_str());
            std::ofstream f(o.replay_out);
            f << "{\"test\":" << jesc(t.name) << ",\"seed\":" << o.seed << ",\"case\":" << ci << ",\"kind\":" << jesc(how) << ",\"message\":" << jesc(msg) << ",\"notes\":" << jesc(notes) << ",\"choices\":[";
            for (size_t i = 0; i < ch.size(); ++i) f << (i ? "," : "") << ch[i];
            f << "]}\n";
            extra = ",\"kind\":" + jesc(how) + ",\"message\":" + jesc(msg.substr(0, 1500)) + ",\"notes\":" + jesc(notes.substr(0, 3000)) + ",\"replay\":" + jesc(o.replay_out);
            rc = 1;
        } else {
            // state carried between cases: rerun the whole prefix; a second
            // failure at the same case confirms it
            u64 where = ~0ULL; std::string m2;
            int r2 = run_prefix(t, o, ci, where, m2);
            if (r2 == 1 && where == ci) {
                std::ofstream f(o.replay_out);
                f << "{\"test\":" << jesc(t.name) << ",\"seed\":" << o.seed << ",\"case\":" << ci << ",\"kind\":" << jesc(how + " (needs the preceding cases of the run)") << ",\"message\":" << jesc(m2.empty() ? first : m2) << ",\"prefix\":true,\"shard\":" << o.shard << ",\"shards\":" << o.shards << ",\"choices\":[]}\n";
                extra = ",\"kind\":" + jesc(how + ", history over several cases") + ",\"message\":" + jesc(m2.empty() ? first : m2) + ",\"replay\":" + jesc(o.replay_out);
                rc = 1;
            } else {
                extra = ",\"kind\":\"unconfirmed " + how + "\",\"message\":" + jesc(first);
                rc = 2;
            }
        }
    }
    // samples: rerun a few cases verbosely
    std::string samples;
    if (rc == 0 && o.shard == 0) {
        int got = 0;
        for (u64 k = 0; k < 40 && got < 2; ++k) {
            u64 i = (k * 37 + 11) % std::max<u64>(1, std::min<u64>(n, std::max<u64>(done, 1)));
            Gen g(sh, seed_of(i));
            // record choices by running in a child
            fflush(nullptr);
            pid_t p = fork();
            if (p == 0) { int e = open("/dev/null", O_WRONLY); dup2(e, 2); dup2(e, 1); Gen g2(sh, seed_of(i)); run_one(t, g2, sh); sh->status = g2.nt ? 5 : 6; _exit(0); }
            int w; waitpid(p, &w, 0);
            if (sh->status != 5) continue;
            std::vector<u64> ch(sh->ch, sh->ch + u64(sh->nch));
            std::string notes; replay_once(t, ch, sh, 60, true, &notes, nullptr);
            if (notes.empty()) { notes = "choices "; for (size_t q = 0; q < ch.size() && q < 40; ++q) notes += std::to_string(ch[q]) + " "; }
            if (notes.size() > 700) notes = notes.substr(0, 700) + "...";
            samples += (samples.empty() ? "" : ",") + jesc(notes); ++got;
        }
    }
    json = "{\"test\":" + jesc(t.name) + ",\"rule\":" + jesc(t.rule) + ",\"cases\":" + std::to_string(done) + ",\"nontrivial\":" + std::to_string(nt) + ",\"capped\":" + std::to_string(capped) + ",\"wall\":" + std::to_string(el()) + ",\"rc\":" + std::to_string(rc) + ",\"labels\":{" + labels + "},\"samples\":[" + samples + "]" + extra + "}";
    munmap(sh, sizeof(Shared));
    return rc;
}
inline int main_(int argc, char** argv) {
    Opts o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--list") o.list = true;
        else if (a == "--test") o.test = nx();
        else if (a == "--seed") o.seed = std::stoull(nx());
        else if (a == "--mult") o.mult = std::stod(nx());
        else if (a == "--cap") o.cap_s = std::stod(nx());
        else if (a == "--hang") o.hang_s = std::stod(nx());
        else if (a == "--out") o.out = nx();
        else if (a == "--replay-out") o.replay_out = nx();
        else if (a == "--prefix") o.prefix = std::stoull(nx());
        else if (a == "--replay") o.replay = nx();
        else if (a == "--grow") { auto s = nx(); int f; u64 k; sscanf(s.c_str(), "%d/%llu", &f, &k); for (auto& t : tests()) t.grow = f, t.one_in = k; }
        else if (a == "--shard") { auto s = nx(); sscanf(s.c_str(), "%llu/%llu", &o.shard, &o.shards); }
    }
    if (o.list) { for (auto& t : tests()) printf("%s\t%llu\n", t.name.c_str(), t.cases); return 0; }
    if (!o.replay.empty()) { // choices file: test name, then numbers
        std::ifstream f(o.replay); std::string name; f >> name; std::vector<u64> ch; u64 x; while (f >> x) ch.push_back(x);
        for (auto& t : tests()) if (t.name == name) {
            if (o.prefix != ~0ULL) { u64 w; std::string m; int r = run_prefix(t, o, o.prefix, w, m); printf("%s\n%s\n", r ? "FAILED" : "HELD", m.c_str()); return r; }
            Shared* sh = shared_area(); std::string notes, err = o.replay_out.empty() ? "/dev/null" : o.replay_out;
            auto r = replay_once(t, ch, sh, o.hang_s, true, &notes, err.c_str());
            printf("%s\n%s\n%s\n", r == OK ? "HELD" : r == FAILED ? "FAILED" : r == HANG ? "HANG" : "CRASHED", sh->msg, notes.c_str());
            return r == OK ? 0 : 1;
        }
        fprintf(stderr, "no such test\n"); return 3;
    }
    int rc = 0; std::string all;
    for (auto& t : tests()) {
        if (!o.test.empty() && t.name != o.test) continue;
        Opts q = o; if (q.replay_out.empty()) q.replay_out = "/tmp/pbt_replay_" + t.name + ".json";
        std::string j; int r = run_test(t, q, j); rc = std::max(rc, r);
        all += j + "\n";
        if (o.out.empty()) { printf("%s\n", j.c_str()); fflush(stdout); }
    }
    if (!o.out.empty()) { std::ofstream f(o.out); f << all; }
    return rc;
}
} // namespace pbt
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
