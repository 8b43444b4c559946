// Generated-input search: forks workers which run generated cases, recovers
// from crashes and hangs, shrinks a failing tape and writes it as a replay.
#include "engine.hpp"
#include "track.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace {

constexpr size_t tape_cap = 1 << 20;
constexpr size_t msg_cap = 1 << 16;
constexpr int exit_fail = 3;
constexpr int exit_hang = 4;

struct Shared {
    volatile uint64_t cur = 0; // index of the current case + 1
    uint32_t family = 0;
    uint32_t size = 0;
    uint32_t done = 0;
    uint32_t msg_len = 0;
    char msg[msg_cap];
    uint32_t tape[tape_cap];
};

Shared* new_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return new (p) Shared;
}

void set_msg(Shared* s, const std::string& m) {
    s->msg_len = static_cast<uint32_t>(std::min(m.size(), msg_cap));
    memcpy(s->msg, m.data(), s->msg_len);
}

int cpu_limit = 20;

void on_alarm(int) { _exit(exit_hang); }

void arm(int seconds) {
    itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

// runs one case; returns false and sets msg if the property failed
bool run_one(uint32_t family, Tape& tape, Ctx& ctx, std::string& msg) {
    if (prop_check_leaks) track_reset();
    try {
        try {
            families[family].fn(tape, ctx);
        } catch (const TapeOverflow&) {
            return true;
        }
    } catch (const Fail& f) {
        msg = f.msg;
        return false;
    } catch (const std::exception& e) {
        msg = std::string("unexpected exception: ") + e.what();
        return false;
    } catch (...) {
        msg = "unexpected exception of unknown type";
        return false;
    }
    if (prop_check_leaks && track_live() != 0) {
        msg = "resources not released: " + std::to_string(track_live()) + " blocks allocated by the library are still alive";
        track_reset();
        return false;
    }
    return true;
}

struct Outcome {
    bool failed = false;
    std::string msg;
    std::vector<uint32_t> tape; // as recorded
    std::string desc;
};

std::string read_file(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    return {std::istreambuf_iterator<char>(f), {}};
}

std::string scratch_dir;
std::string parent_scratch;
bool thorough = false;

void child_scratch(const std::string& name) {
    scratch_dir = parent_scratch + "/" + name;
    mkdir(scratch_dir.c_str(), 0777);
    prop_init(scratch_dir, thorough);
}

std::string crash_summary(const std::string& err, const std::string& what) {
    std::string r = what;
    for (const char* key : {"ERROR: AddressSanitizer", "runtime error", "SUMMARY", "WARNING: ThreadSanitizer", "terminate called", "what()"}) {
        auto p = err.find(key);
        if (p != std::string::npos) r += "\n" + err.substr(p, std::min<size_t>(err.find('\n', p), p + 400) - p);
    }
    return r;
}

// runs a tape in a child process
Outcome run_child(uint32_t family, const std::vector<uint32_t>& in, bool verbose) {
    static Shared* s = new_shared();
    s->size = 0;
    s->msg_len = 0;
    std::string errf = parent_scratch + "/shrink.err", descf = parent_scratch + "/shrink.desc";
    unlink(descf.c_str());
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
        dup2(fd, 2);
        signal(SIGVTALRM, on_alarm);
        arm(cpu_limit);
        child_scratch("shrink");
        Tape t;
        t.kind = Tape::Kind::replay;
        t.in = in.data();
        t.in_size = in.size();
        t.out = s->tape;
        t.out_size = &s->size;
        t.cap = tape_cap;
        Ctx c;
        c.verbose = verbose;
        std::string msg;
        bool ok = run_one(family, t, c, msg);
        if (verbose) {
            std::ofstream f(descf, std::ios::binary);
            f << c.desc;
        }
        if (!ok) {
            set_msg(s, msg);
            _exit(exit_fail);
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    o.tape.assign(s->tape, s->tape + s->size);
    if (verbose) o.desc = read_file(descf);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    o.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == exit_fail) o.msg.assign(s->msg, s->msg_len);
    else if (WIFEXITED(st) && WEXITSTATUS(st) == exit_hang) o.msg = "hang: no result after " + std::to_string(cpu_limit) + " s of CPU time";
    else if (WIFSIGNALED(st)) o.msg = crash_summary(read_file(errf), std::string("crash: signal ") + strsignal(WTERMSIG(st)));
    else o.msg = crash_summary(read_file(errf), "crash: exit status " + std::to_string(WEXITSTATUS(st)));
    return o;
}

double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

std::vector<uint32_t> shrink(uint32_t family, std::vector<uint32_t> best, double seconds) {
    const double end = now() + seconds;
    bool progress = true;
    auto attempt = [&](std::vector<uint32_t> cand) {
        if (now() > end) return false;
        auto o = run_child(family, cand, false);
        if (!o.failed) return false;
        // normalise to what was really drawn, drop trailing zeroes
        if (!o.tape.empty() && o.tape.size() <= cand.size()) cand = o.tape;
        while (!cand.empty() && cand.back() == 0) cand.pop_back();
        bool smaller = cand.size() < best.size() || (cand.size() == best.size() && std::lexicographical_compare(cand.begin(), cand.end(), best.begin(), best.end()));
        if (!smaller) return false;
        best = std::move(cand);
        return true;
    };
    while (progress && now() < end) {
        progress = false;
        // remove chunks
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && now() < end; len /= 2) {
            for (size_t i = 0; i + len <= best.size() && now() < end;) {
                auto c = best;
                c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + len));
                if (attempt(c)) progress = true;
                else i += len;
            }
            if (len == 1) break;
        }
        // zero chunks
        for (size_t len = std::max<size_t>(1, best.size() / 4); len >= 1 && now() < end; len /= 2) {
            for (size_t i = 0; i + len <= best.size() && now() < end; i += len) {
                auto c = best;
                bool any = false;
                for (size_t k = i; k < i + len; ++k) { any |= c[k] != 0; c[k] = 0; }
                if (any && attempt(c)) progress = true;
            }
            if (len == 1) break;
        }
        // lower single values
        for (size_t i = 0; i < best.size() && now() < end; ++i) {
            uint32_t lo = 0;
            while (i < best.size() && best[i] > lo && now() < end) {
                auto c = best;
                uint32_t old = c[i];
                c[i] = lo + (old - lo) / 2;
                if (attempt(c)) { progress = true; if (i < best.size() && best[i] == old) break; }
                else if (c[i] + 1 >= old) break;
                else lo = c[i] + 1;
            }
        }
    }
    return best;
}

std::string json_str(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}

size_t family_of(uint64_t idx) {
    unsigned sum = 0;
    for (auto& f : families) sum += f.weight;
    unsigned r = static_cast<unsigned>(mix(idx, 77) % sum);
    for (size_t i = 0; i < families.size(); ++i) {
        if (r < families[i].weight) return i;
        r -= families[i].weight;
    }
    return 0;
}

} // namespace

#ifndef LIBFUZZER
int main(int argc, char** argv) {
    uint64_t cases = 1000, seed = 1;
    int workers = 8;
    double time_limit = 300, shrink_time = 60;
    std::string out = "result.json", replay, from, replay_dir = ".", scratch = "/tmp", tag;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--cases") cases = std::stoull(v);
        else if (a == "--seed") seed = std::stoull(v);
        else if (a == "--workers") workers = std::stoi(v);
        else if (a == "--time") time_limit = std::stod(v);
        else if (a == "--shrink") shrink_time = std::stod(v);
        else if (a == "--out") out = v;
        else if (a == "--replay") replay = v;
        else if (a == "--from") from = v;
        else if (a == "--replay-dir") replay_dir = v;
        else if (a == "--scratch") scratch = v;
        else if (a == "--cpu") cpu_limit = std::stoi(v);
        else if (a == "--tag") tag = v;
        else if (a == "--tier") thorough = v == "thorough";
    }
    parent_scratch = scratch;

    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string line, fam;
        std::vector<uint32_t> tape;
        while (std::getline(f, line)) {
            if (line.rfind("family ", 0) == 0) fam = line.substr(7);
            if (line.rfind("tape ", 0) == 0) {
                char* p = line.data() + 5;
                while (*p) {
                    char* e;
                    unsigned long x = strtoul(p, &e, 10);
                    if (e == p) break;
                    tape.push_back(static_cast<uint32_t>(x));
                    p = e;
                }
            }
        }
        uint32_t fi = 0;
        for (; fi < families.size(); ++fi) if (fam == families[fi].name) break;
        if (fi == families.size()) { fprintf(stderr, "no family %s\n", fam.c_str()); return 2; }
        auto o = run_child(fi, tape, true);
        printf("%s\n", o.desc.c_str());
        if (o.failed) { printf("FAILED: %s\n", o.msg.c_str()); return 1; }
        printf("passed\n");
        return 0;
    }

    const double t0 = now();
    std::vector<Shared*> sh;
    std::vector<pid_t> pids(workers);
    for (int w = 0; w < workers; ++w) sh.push_back(new_shared());

    auto spawn = [&](int w, uint64_t first) {
        fflush(nullptr);
        pid_t pid = fork();
        if (pid != 0) { pids[w] = pid; return; }
        std::string name = "w" + std::to_string(w);
        int fd = open((parent_scratch + "/" + name + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
        dup2(fd, 2);
        signal(SIGVTALRM, on_alarm);
        child_scratch(name);
        Shared* s = sh[w];
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, uint64_t> labels;
        uint64_t evals = 0, nontrivial = 0, all_distinct = 0;
        std::vector<std::string> samples;
        std::unordered_set<uint64_t> all;
        for (uint64_t idx = first; idx < cases; idx += workers) {
            if ((idx / workers) % 16 == 0 && now() - t0 > time_limit) break;
            s->family = static_cast<uint32_t>(family_of(idx));
            s->size = 0;
            s->cur = idx + 1;
            arm(cpu_limit);
            Tape t;
            t.rng = Rng{mix(seed, idx)};
            t.out = s->tape;
            t.out_size = &s->size;
            t.cap = tape_cap;
            Ctx c;
            c.labels = &labels;
            c.verbose = samples.size() < 2 && evals < 200;
            std::string msg;
            if (!run_one(s->family, t, c, msg)) {
                set_msg(s, msg);
                _exit(exit_fail);
            }
            ++evals;
            labels[std::string("family ") + families[s->family].name]++;
            if (c.nontrivial) {
                ++nontrivial;
                distinct.insert(c.hash);
                if (c.verbose && evals > 3 && c.desc.size() < 3000 && samples.size() < 2) samples.push_back(std::string("[") + families[s->family].name + "] " + c.desc);
            }
        }
        arm(0);
        (void)all_distinct;
        std::ofstream f(parent_scratch + "/" + name + ".stat", std::ios::binary);
        f << evals << "\n" << nontrivial << "\n" << labels.size() << "\n";
        for (auto& [k, v] : labels) f << v << " " << k << "\n";
        f << samples.size() << "\n";
        for (auto& x : samples) f << x.size() << "\n" << x << "\n";
        f << distinct.size() << "\n";
        for (auto x : distinct) f.write(reinterpret_cast<const char*>(&x), 8);
        f.close();
        _exit(0);
    };
    bool failed = false;
    uint32_t fam = 0;
    std::string msg;
    std::vector<uint32_t> tape;
    int left = workers;
    std::string unconfirmed;
    if (!from.empty()) {
        // a case of the coverage-guided search: family, then the draws
        workers = left = 0;
        std::ifstream f(from);
        f >> fam;
        for (uint32_t x; f >> x;) tape.push_back(x);
        if (fam >= families.size()) return 2;
        int n = 0;
        for (int k = 0; k < 3; ++k) {
            auto x = run_child(fam, tape, false);
            if (x.failed) { ++n; msg = x.msg; }
        }
        failed = n == 3;
    }
    for (int w = 0; w < workers; ++w) spawn(w, w);

    while (left > 0) {
        int st = 0;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) break;
        int w = static_cast<int>(std::find(pids.begin(), pids.end(), p) - pids.begin());
        if (w == workers) continue;
        --left;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        // confirm by replay
        Shared* s = sh[w];
        fam = s->family;
        tape.assign(s->tape, s->tape + s->size);
        std::string first_msg(s->msg, s->msg_len);
        Outcome o;
        int n = 0;
        for (int k = 0; k < 3; ++k) {
            auto x = run_child(fam, tape, false);
            if (x.failed) { ++n; o = x; }
        }
        if (n == 3) {
            failed = true;
            msg = o.msg;
            for (int k = 0; k < workers; ++k) if (pids[k] != p) kill(pids[k], SIGKILL);
            while (waitpid(-1, &st, 0) > 0) {}
            break;
        }
        // an outcome that does not repeat is no evidence about the property
        unconfirmed += "case " + std::to_string(s->cur - 1) + " status " + std::to_string(st) + " " + first_msg + "; ";
        s->msg_len = 0;
        uint64_t next = s->cur - 1 + workers;
        ++left;
        spawn(w, next);
    }

    uint64_t evals = 0, nontrivial = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> distinct;
    for (int w = 0; w < workers && !failed; ++w) {
        std::ifstream f(parent_scratch + "/w" + std::to_string(w) + ".stat", std::ios::binary);
        uint64_t a = 0, b = 0, n = 0;
        f >> a >> b >> n;
        evals += a;
        nontrivial += b;
        std::string l;
        for (uint64_t i = 0; i < n; ++i) {
            uint64_t v;
            f >> v;
            f.get();
            std::getline(f, l);
            labels[l] += v;
        }
        f >> n;
        for (uint64_t i = 0; i < n; ++i) {
            uint64_t len;
            f >> len;
            f.get();
            std::string x(len, 0);
            f.read(x.data(), static_cast<std::streamsize>(len));
            f.get();
            if (samples.size() < 8) samples.push_back(x);
        }
        f >> n;
        f.get();
        for (uint64_t i = 0; i < n; ++i) {
            uint64_t x;
            f.read(reinterpret_cast<char*>(&x), 8);
            distinct.insert(x);
        }
    }

    std::string replay_path;
    if (failed) {
        fprintf(stderr, "failure: %s\nshrinking...\n", msg.c_str());
        auto best = shrink(fam, tape, shrink_time);
        auto o = run_child(fam, best, true);
        if (!o.failed) { best = tape; o = run_child(fam, best, true); }
        uint64_t h = 0;
        for (auto x : best) h = mix(h, x + 1);
        char name[64];
        snprintf(name, sizeof name, "%s%s-%016llx.replay", prop_id, tag.c_str(), static_cast<unsigned long long>(h));
        replay_path = replay_dir + "/" + name;
        std::ofstream f(replay_path, std::ios::binary);
        f << "property " << prop_id << "\nfamily " << families[fam].name << "\ntape";
        for (auto x : best) f << ' ' << x;
        f << "\nfailure:\n" << o.msg << "\n\ncase:\n" << o.desc << "\n";
        f.close();
        fprintf(stderr, "%s\n%s\n", o.desc.c_str(), o.msg.c_str());
        msg = o.msg;
        samples.push_back(o.desc);
        evals = 1;
    }
    std::ofstream f(out);
    f << "{\"failed\": " << (failed ? "true" : "false") << ", \"replay\": " << json_str(replay_path) << ", \"message\": " << json_str(msg)
      << ",\n \"evaluations\": " << evals << ", \"nontrivial\": " << nontrivial << ", \"distinct_nontrivial\": " << distinct.size()
      << ",\n \"rule\": " << json_str(prop_rule) << ", \"unconfirmed\": " << json_str(unconfirmed) << ",\n \"labels\": {";
    bool first = true;
    for (auto& [k, v] : labels) { f << (first ? "" : ", ") << json_str(k) << ": " << v; first = false; }
    f << "},\n \"samples\": [";
    first = true;
    for (auto& x : samples) { f << (first ? "" : ",\n  ") << json_str(x); first = false; }
    f << "]}\n";
    return failed ? 1 : 0;
}
#else
// coverage-guided entry: the bytes are the tape. The draws of the current case are
// kept in a mapped file (FUZZ_OUT), from which a failure is confirmed and shrunk by
// the other binary (--from).
struct FuzzOut {
    uint64_t evals = 0, nontrivial = 0;
    Shared s;
};
static FuzzOut* fuzz_out;
static std::unordered_set<uint64_t>* fuzz_seen;

extern "C" int LLVMFuzzerInitialize(int*, char***) {
    const char* s = getenv("FUZZ_SCRATCH");
    const char* o = getenv("FUZZ_OUT");
    parent_scratch = s ? s : "/tmp";
    thorough = true;
    child_scratch("f" + std::to_string(getpid()));
    int fd = open(o ? o : (parent_scratch + "/fuzz.out").c_str(), O_CREAT | O_TRUNC | O_RDWR, 0666);
    if (fd < 0 || ftruncate(fd, sizeof(FuzzOut)) != 0) { perror("FUZZ_OUT"); exit(2); }
    void* p = mmap(nullptr, sizeof(FuzzOut), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    close(fd);
    fuzz_out = new (p) FuzzOut;
    fuzz_seen = new std::unordered_set<uint64_t>;
    return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    if (size < 1) return 0;
    Shared* s = &fuzz_out->s;
    s->family = data[0] % static_cast<uint32_t>(families.size());
    s->size = 0;
    s->msg_len = 0;
    Tape t;
    t.kind = Tape::Kind::bytes;
    t.bytes = data + 1;
    t.bytes_size = size - 1;
    t.out = s->tape;
    t.out_size = &s->size;
    t.cap = tape_cap;
    Ctx c;
    std::string msg;
    if (!run_one(s->family, t, c, msg)) {
        set_msg(s, msg);
        abort();
    }
    ++fuzz_out->evals;
    if (c.nontrivial && fuzz_seen->insert(c.hash).second) ++fuzz_out->nontrivial;
    if (fuzz_seen->size() > 4000000) fuzz_seen->clear();
    return 0;
}
#endif
