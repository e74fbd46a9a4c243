// Generated translation units: a selection of the library's headers in some order, handed to the compiler.
#include "pbt.hpp"
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <thread>
#include <atomic>
#include <mutex>
#include <unistd.h>
using namespace pbt; namespace fs = std::filesystem;
namespace {
std::string repo() { const char* p = getenv("VERIF_REPO"); return p && *p ? p : "/repo"; }
std::string acl() { std::string f = __FILE__; return (fs::absolute(f).parent_path() / "../../acl").lexically_normal().string(); }
// every header that exists at the time of the run, sorted by path: a header added later is picked up
std::vector<std::string> headers() { std::vector<std::string> r; for (auto& e : fs::recursive_directory_iterator(repo() + "/library")) if (e.is_regular_file() && e.path().extension() == ".hpp") r.push_back(fs::relative(e.path(), repo()).string()); std::sort(r.begin(), r.end()); return r; }
struct Scratch { std::string d; Scratch() { char t[] = "/tmp/pbt_hdr_XXXXXX"; const char* p = mkdtemp(t); if (!p) throw std::runtime_error("mkdtemp"); d = p; } ~Scratch() { std::error_code e; fs::remove_all(d, e); } };
// empty when accepted, else the first error
std::string compile(const std::string& dir, int id, const std::string& src, const char* std_) {
    std::string f = dir + "/" + std::to_string(id) + ".cpp", o = dir + "/" + std::to_string(id) + ".txt"; { std::ofstream s(f); s << src; }
    std::string cmd = "cd '" + repo() + "' && LC_ALL=C g++-10 -std=" + std_ + " -fsyntax-only -w -I . -I '" + acl() + "' -mbmi -mbmi2 -mavx2 '" + f + "' > '" + o + "' 2>&1";
    if (std::system(cmd.c_str()) == 0) return "";
    std::ifstream s(o); std::string l, r = "rejected"; while (std::getline(s, l)) if (l.find("error") != l.npos) { r = l; break; } return r;
}
std::string inc(const std::string& h) { return "#include \"" + h + "\"\n"; }
const char* const tail = "int main() {}\n";
}
PBT(every_header_alone, 1, "every case: each header is the first and only include of a program") {
    g.nontrivial(); auto h = headers(); CKM(h.size() > 100, "headers found"); Scratch s; std::atomic<int> at{ 0 }; std::mutex m; std::vector<std::string> bad; std::vector<std::thread> ts;
    for (int t = 0; t < 8; ++t) ts.emplace_back([&] { for (int i; (i = at++) < (int)h.size();) { auto e = compile(s.d, i, inc(h[i]) + tail, "gnu++17"); if (!e.empty()) { std::lock_guard<std::mutex> l(m); bad.push_back(h[i] + ": " + e); } } });
    for (auto& t : ts) t.join(); std::sort(bad.begin(), bad.end()); for (auto& b : bad) g.note(b); g.note(h.size(), " headers"); CKM(bad.empty(), bad.empty() ? "" : "not self-contained: " + bad[0]);
}
// the included set is drawn as (count, then picks), so that shrinking removes headers
static void together(Gen& g, int lo, int hi) {
    auto h = headers(); int n = h.size(), k = lo + (int)g.raw(hi - lo + 1); std::vector<char> in(n); std::vector<int> ord; for (int i = 0; i < k; ++i) { int x = g.raw(n); if (!in[x]) in[x] = 1, ord.push_back(x); }
    static const char* pre[] = { "", "#include <bits/stdc++.h>\n", "#include <bits/stdc++.h>\nusing namespace std;\n" }; int p = g.raw(3); bool use = g.coin(); std::string src = pre[p]; for (int i : ord) src += inc(h[i]); if (g.coin()) for (int i : ord) src += inc(h[i]); if (use) src += "using namespace suisen;\n"; src += tail;
    g.nontrivial(ord.size() >= 2); g.label(p == 0 ? "no prelude" : p == 1 ? "standard prelude" : "prelude with using namespace std"); g.note(src); Scratch s; auto e = compile(s.d, 0, src, "gnu++17"); CKM(e.empty(), e);
}
PBT(headers_together, 10, "at least two different headers") { together(g, 2, 40); }
PBT(many_headers_together, 4, "at least two different headers") { together(g, 200, 500); }
PBT(all_headers_shuffled, 2, "every case: all headers, random order") {
    auto h = headers(); g.nontrivial(); std::vector<std::pair<unsigned, std::string>> v; unsigned x = g.raw(0); for (auto& s : h) { x = x * 1664525u + 1013904223u; v.emplace_back(x >> 8, s); } if (x % 3) std::sort(v.begin(), v.end()); std::string src; for (auto& [k, s] : v) src += inc(s); for (auto& [k, s] : v) src += inc(s); src += tail; g.note(h.size(), " headers, seed ", x); Scratch s; auto e = compile(s.d, 0, src, "gnu++17"); CKM(e.empty(), e);
}
