#include "conv_model.hpp"
#include <atomic>
#include <thread>
const char* const prop_id = "C23";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is two to four threads, each converting its own fields to numbers, characters, optionals, variants and restricted types by generated routes, "
    "in all builds, at the same time under ThreadSanitizer; each result is compared with the specification of the type; non-trivial: two threads or more "
    "convert fields successfully";
void prop_init(const std::string&, bool) { cm::specs(); }

namespace {
struct Item {
    std::string type, field, delim;
    int route;
};

std::string field_for(Tape& t) {
    std::string f = t.chance(1, 3) ? "-" : "";
    switch (t.weighted({3, 3, 2, 2})) {
    case 0: return f + cm::num(t, 4);
    case 1: { // a number which is longer than what fits into a small buffer
        int n = t.range(50, 140);
        char d = static_cast<char>('0' + t.below(10));
        return f + cm::num(t, 2) + "." + std::string(static_cast<size_t>(n), d) + (t.chance(1, 3) ? "e" + cm::num(t, 1) : "");
    }
    case 2: return f + cm::num(t, 3) + "." + cm::num(t, 8);
    default: {
        static const std::vector<std::string> w = {"a", "true", "false", "circle", "square", "", "abcd", "10", "0", "1", "30", "-1", "7", "a long text which does not fit into a short string"};
        return t.pick(w);
    }
    }
}
} // namespace

static void threads(Tape& t, Ctx& c) {
    static const std::vector<std::string> types = [] {
        std::vector<std::string> r;
        for (auto& x : ConvRegistry::get().all) if (std::find(r.begin(), r.end(), x.name) == r.end()) r.push_back(x.name);
        return r;
    }();
    std::vector<std::vector<Item>> jobs(static_cast<size_t>(t.range(2, 4)));
    bool same = t.chance(1, 3); // all threads do the same
    for (size_t i = 0; i < jobs.size(); ++i) {
        if (i && same) { jobs[i] = jobs[0]; continue; }
        for (int n = t.range(2, 12); n > 0; --n) {
            Item it;
            it.field = field_for(t);
            // numbers most of the time
            it.type = t.chance(1, 2) ? (t.chance(1, 2) ? "double" : "float") : t.pick(types);
            it.delim = cm::delim_for(t, it.field);
            it.route = static_cast<int>(t.below(rt_count));
            jobs[i].push_back(it);
        }
    }
    for (auto& j : jobs) for (auto& it : j) { c.h(it.type); c.h(it.field); c.h(static_cast<uint64_t>(it.route)); }
    if (c.notes())
        for (size_t i = 0; i < jobs.size(); ++i)
            for (auto& it : jobs[i]) c.note("thread " + std::to_string(i) + ": " + show(it.field) + " to " + it.type + " by " + route_name(it.route));
    std::vector<std::string> errors(jobs.size());
    std::atomic<size_t> ready{0}, good{0};
    std::vector<std::thread> th;
    for (size_t i = 0; i < jobs.size(); ++i) {
        th.emplace_back([&, i] {
            ++ready;
            while (ready < jobs.size()) std::this_thread::yield();
            bool any = false;
            try {
                Ctx own;
                for (auto& it : jobs[i]) any |= cm::check(own, it.type, it.field, it.delim, it.route);
            } catch (const Fail& f) {
                errors[i] = f.msg;
            }
            good += any;
        });
    }
    for (auto& x : th) x.join();
    for (size_t i = 0; i < errors.size(); ++i) if (!errors[i].empty()) fail("thread " + std::to_string(i) + ": " + errors[i]);
    c.nontrivial = good >= 2;
}

const std::vector<Family> families = {{"conversions", 1, threads}};
