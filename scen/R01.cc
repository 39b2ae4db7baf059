// R01: log lines come out whole, once and in order.
#include "common.h"
#define private public
#include "eckit/config/ResourceMgr.h"
#undef private
#include "eckit/log/CallbackTarget.h"
#include "eckit/log/Channel.h"
#include "eckit/log/IndentTarget.h"
#include "eckit/log/PrefixTarget.h"
#include "eckit/log/RotationTarget.h"
#include "eckit/log/TeeTarget.h"
#include "eckit/log/TimeStampTarget.h"
#include "eckit/log/UserChannel.h"
#include "eckit/log/WrapperTarget.h"
using namespace scen;
using dst::gen;
namespace {
const int64_t DAY = 86400ll * 1000000000ll;
int64_t day() { return dst::wallNow() / DAY; }
std::string dayName(int64_t d) {
    time_t t = time_t(d * 86400);
    struct tm m;
    char b[64];
    strftime(b, sizeof b, "%Y-%m-%d", gmtime_r(&t, &m));
    return b;
}
struct Suffix : eckit::WrapperTarget {
    std::string s;
    Suffix(const std::string& x, eckit::LogTarget* t) : WrapperTarget(t), s(x) {}
    void writePrefix() override {}
    void writeSuffix() override { target_->write(s.data(), s.data() + s.size()); }
    void print(std::ostream&) const override {}
};
struct Line {
    std::string body;               // what the thread wrote, without the newline
    std::string pre, extra, post;   // what the targets put around it
    bool stamped = false;           // a time stamp comes first
    int64_t from = 0, to = 0;       // days on which it was being written
    size_t jump = 0;
    bool seen = false;
    bool exempt = false;            // written while the disk was failing
};
struct Logger {                     // one thread with its channel
    int id = 0;
    std::vector<int> names;         // log files its lines go to
    std::vector<Line> lines;
    std::vector<std::string> called;
    size_t settled = 0;             // lines known to be written out
    int prefix = 0, indent = 0; bool stamped = false, suffix = false, callback = false, mainChannel = false;
    std::string pre() const { return (prefix == 1 ? "P" + std::to_string(id) + " " : prefix == 2 ? "Q" + std::to_string(id) : "") ; }
};
void onLine(void* p, const char* s) { dst::Quiet q; static_cast<Logger*>(p)->called.push_back(s); }
std::string bodyOf(int t, int i, uint64_t n) {
    std::string b = std::to_string(t) + "." + std::to_string(i) + "." + std::to_string(n) + "|";
    std::string p = pattern(uint64_t(t) * 1000 + uint64_t(i), 0, n);
    for (auto& c : p) b += char('A' + static_cast<unsigned char>(c) % 26);
    return b + "|";
}
uint64_t lineSize() { switch (gen(0, 3)) { case 0: return gen(0, 40); case 1: return sizeNear(1012, 2100); case 2: return sizeNear(4084, 5200); default: return gen(0, 200); } }
void put(std::ostream& out, const std::string& s, uint64_t pieces) {   // in pieces, by the different ways of writing to a stream
    size_t off = 0;
    for (uint64_t k = 0; k < pieces && off < s.size(); ++k) {
        size_t n = k + 1 == pieces ? s.size() - off : gen(0, s.size() - off);
        if (gen(0, 1)) out << s.substr(off, n); else out.write(s.data() + off, std::streamsize(n));
        off += n;
        if (gen(0, 3) == 0) dst::yield();
        if (off < s.size() && gen(0, 3) == 0) out << s[off++];
    }
    if (off < s.size()) out << s.substr(off);
}
std::vector<int64_t>* jumped;   // the days seen when the clock was set
bool jumps = false, back = false, midFlush = false, faulty = false;
void settle(Logger& l) {
    dst::Quiet q;
    for (; l.settled < l.lines.size(); ++l.settled) {
        Line& n = l.lines[l.settled];
        n.to = std::max(n.from, day()); n.from = std::min(n.from, day());
        for (size_t k = n.jump; k < jumped->size(); ++k) { n.from = std::min(n.from, (*jumped)[k]); n.to = std::max(n.to, (*jumped)[k]); }
    }
}
void emit(Logger& l, std::ostream& out, const std::string& extra, bool failing) {
    Line n;
    n.body = bodyOf(l.id, int(l.lines.size()), lineSize());
    n.pre = l.pre();
    n.extra = extra;
    n.post = l.suffix ? "~S" : "";
    n.stamped = l.stamped;
    n.exempt = failing;
    bool flush = gen(0, 2) != 0;
    { dst::Quiet q; n.from = day(); n.jump = jumped->size(); l.lines.push_back(n); }
    if (midFlush && gen(0, 1)) {
        size_t c = gen(0, n.body.size());
        put(out, n.body.substr(0, c), gen(1, 2));
        out << std::flush;
        put(out, n.body.substr(c), gen(1, 2));
    }
    else put(out, n.body, gen(1, 3));
    if (jumps && gen(0, 5) == 0) {
        int64_t by = back && gen(0, 1) ? -(DAY * int64_t(gen(1, 2))) : DAY - dst::wallNow() % DAY - int64_t(gen(0, 2));
        dst::Quiet q;
        jumped->push_back(day());
        dst::jumpWall(by);
        jumped->push_back(day());
    }
    if (flush) { out << std::endl; settle(l); } else { out << '\n'; if (gen(0, 9) == 0) { out << std::flush; settle(l); } }
}
eckit::LogTarget* target(Logger& l) {
    eckit::LogTarget* t = new eckit::RotationTarget("log" + std::to_string(l.names[0]));
    if (l.names.size() > 1) t = new eckit::TeeTarget(t, new eckit::RotationTarget("log" + std::to_string(l.names[1])));
    if (l.callback) t = gen(0, 1) ? new eckit::TeeTarget(t, new eckit::CallbackTarget(onLine, &l)) : new eckit::TeeTarget(new eckit::CallbackTarget(onLine, &l), t);
    if (l.prefix == 1) t = new eckit::PrefixTarget("P" + std::to_string(l.id), t);
    if (l.prefix == 2) t = new eckit::PrefixTarget("Q" + std::to_string(l.id), t, "");
    if (l.suffix) t = new Suffix("~S", t);
    if (l.stamped) t = new eckit::TimeStampTarget("(T)", t);
    return t;
}
void logging(Logger& l, int phases, const std::function<void(int)>& barrier) {
    std::unique_ptr<eckit::Channel> own;
    eckit::Channel* c;
    if (l.mainChannel) { c = gen(0, 1) ? &eckit::Log::info() : &eckit::Log::error(); c->setTarget(target(l)); }
    else { own.reset(new eckit::Channel(target(l))); c = own.get(); }
    for (int p = 0; p < phases; ++p) {
        bool failing = faulty && p == 0;
        int n = int(gen(1, 6));
        for (int i = 0; i < n; ++i) {
            if (gen(0, 5) == 0) {    // from here on indented, or not any more
                if (l.indent < 2 && gen(0, 1)) { c->indent(); settle(l); l.indent++; }
                else if (l.indent) { c->unindent(); settle(l); l.indent--; }
            }
            std::string extra;
            for (int k = 0; k < l.indent; ++k) extra = "    " + extra;
            emit(l, *c, extra, failing);
        }
        bool unflushed = p + 1 == phases && !failing && gen(0, 1);   // what is left is written when the channel is reset or destroyed
        if (!unflushed) { *c << std::flush; settle(l); }
        if (failing) { barrier(p); for (int k = 0; k < l.indent; ++k) c->unindent(); l.indent = 0; *c << std::endl; }
    }
    while (l.indent) { c->unindent(); l.indent--; }
    if (l.mainChannel && gen(0, 1)) c->reset(); else if (l.mainChannel) *c << std::flush;
}
bool matches(const Line& n, const std::string& got, bool suffixOnly) {   // what the target closest to the file adds comes first
    std::string tail = n.extra + n.body + n.post;
    if (got.size() < tail.size() || got.compare(got.size() - tail.size(), tail.size(), tail) != 0) return false;
    if (suffixOnly) return true;
    std::string before = got.substr(0, got.size() - tail.size());
    if (before.compare(0, n.pre.size(), n.pre) != 0) return false;
    before.erase(0, n.pre.size());
    if (!n.stamped) return before.empty();
    return before.size() >= 24 && before.size() < 40 && before.substr(before.size() - 5) == " (T) ";
}
void rotation() {
    int n = int(gen(1, 4)), names = int(gen(1, 2));
    jumps = gen(0, 1); faulty = gen(0, 3) == 0; midFlush = n == 1 && !faulty && gen(0, 1);
    if (midFlush) jumps = false;
    back = jumps && !faulty && gen(0, 2) == 0;
    jumped = new std::vector<int64_t>();
    static const char* const sizes[] = {"0", "16", "100", "1024", "4096", "65536"};
    std::string dir = dst::scratch() + "/log" + (gen(0, 3) == 0 ? std::string(gen(20, 70), 'd') : "");
    eckit::ResourceMgr::instance().set("logfileFormat", dir + "/%Y-%m-%d");
    eckit::ResourceMgr::instance().set("logFilesBufferSize", sizes[gen(0, 5)]);
    dst::note("rotation: %d threads, %d files%s%s%s", n, names, jumps ? ", day changes" : "", faulty ? ", disk errors" : "", midFlush ? ", partial flushes" : "");
    std::vector<std::unique_ptr<Logger>> ls;
    for (int i = 0; i < n; ++i) {
        ls.emplace_back(new Logger);
        Logger& l = *ls.back();
        l.id = i;
        l.names.push_back(int(gen(0, uint64_t(names - 1))));
        if (names > 1 && gen(0, 3) == 0) l.names.push_back(1 - l.names[0]);
        l.prefix = int(gen(0, 2)); l.stamped = gen(0, 3) == 0; l.suffix = gen(0, 3) == 0; l.callback = gen(0, 2) == 0; l.mainChannel = gen(0, 2) == 0;
    }
    dst::enableIf(dst::F_SHORTWRITE, 0.4, 0.05, 0.5); dst::enableIf(dst::F_EINTR, 0.4, 0.02, 0.3); dst::enableIf(dst::F_STALL, 0.2, 0.005, 0.05);
    if (faulty) { dst::enableIf(dst::F_WRITEERR, 0.6, 0.05, 0.5); dst::enableIf(dst::F_NOSPACE, 0.6, 0.05, 0.5); dst::enableIf(dst::F_OPENERR, 0.5, 0.1, 0.7); }
    std::atomic<int> arrived{0};
    auto barrier = [&](int) { if (++arrived == n) dst::disableAll(); while (arrived < n) dst::sleepNs(1000000); };
    {
        Threads t;
        for (auto& l : ls) { Logger* p = l.get(); t.go([&, p]() { logging(*p, faulty ? 2 : int(gen(1, 2)), barrier); }); }
    }
    dst::disableAll();
    bool strict = !dst::fired(dst::F_WRITEERR) && !dst::fired(dst::F_NOSPACE) && !dst::fired(dst::F_OPENERR);
    dst::Quiet q;
    for (auto& l : ls) settle(*l);
    size_t total = 0, seen = 0, exempted = 0;
    for (int f = 0; f < names; ++f) {
        std::vector<size_t> next(size_t(n), 0);
        for (auto& d : dst::listRaw(dir)) {
            std::string path = dir + "/" + d + "/log" + std::to_string(f);
            if (!dst::existsRaw(path)) continue;
            std::string all = dst::readFileRaw(path);
            if (strict) DST_CHECK(all.empty() || all.back() == '\n', "incomplete-line", "the file of %s ends in mid-line", d.c_str());
            size_t a = 0;
            if (back) std::fill(next.begin(), next.end(), 0);   // the order of the files says nothing
            while (a < all.size()) {
                size_t b = all.find('\n', a);
                if (b == std::string::npos) b = all.size();
                std::string got = all.substr(a, b - a);
                a = b + 1;
                bool found = false;
                if (faulty && got.find('|') == std::string::npos && got.size() < 60) continue;    // the newline between the phases
                for (int t = 0; t < n && !found; ++t) {
                    Logger& l = *ls[size_t(t)];
                    if (std::find(l.names.begin(), l.names.end(), f) == l.names.end()) continue;
                    size_t& i = next[size_t(t)];
                    if (!strict) while (i < l.lines.size() && l.lines[i].exempt) ++i;
                    if (back) {
                        size_t j = i;
                        while (j < l.lines.size() && (l.lines[j].seen || !matches(l.lines[j], got, false))) ++j;
                        if (j == l.lines.size()) continue;
                        i = j;
                    }
                    if (i < l.lines.size() && matches(l.lines[i], got, !strict)) {
                        found = true;
                        Line& x = l.lines[i];
                        DST_CHECK(d >= dayName(x.from) && d <= dayName(x.to), "wrong-day", "line %zu of thread %d, written from %s to %s, is in the file of %s", i, t, dayName(x.from).c_str(), dayName(x.to).c_str(), d.c_str());
                        x.seen = true;
                        ++i; ++seen;
                    }
                }
                if (!found && strict) {
                    for (auto& l : ls) for (size_t i = 0; i < l->lines.size(); ++i) if (matches(l->lines[i], got, false))
                        dst::fail("order-or-repeat", "line %zu of thread %d appears again or out of order (expected line %zu next)", i, l->id, next[size_t(l->id)]);
                    dst::fail("mixed-line", "in the file of %s: '%.60s...%s' (%zu bytes) is not a line any thread wrote", d.c_str(), got.c_str(), got.size() > 60 ? got.substr(got.size() - std::min<size_t>(20, got.size() - 60)).c_str() : "", got.size());
                }
            }
        }
        for (auto& l : ls) {
            if (std::find(l->names.begin(), l->names.end(), f) == l->names.end()) continue;
            size_t& i = next[size_t(l->id)];
            if (back) for (i = 0; i < l->lines.size() && l->lines[i].seen; ++i);
            for (auto& x : l->lines) x.seen = false;
            if (!strict) while (i < l->lines.size() && l->lines[i].exempt) { ++i; ++exempted; }
            total += l->lines.size();
            DST_CHECK(i >= l->lines.size(), "lost-line", "line %zu of thread %d%s is not in log%d: %zu of %zu lines are", i, l->id, strict ? "" : " (written after the disk recovered)", f, i, l->lines.size());
        }
    }
    for (auto& l : ls) if (l->callback) {
        size_t k = 0;
        for (auto& s : l->called) {
            if (faulty && s.size() < 60 && s.find('|') == std::string::npos) continue;
            if (!strict) while (k < l->lines.size() && l->lines[k].exempt) ++k;
            if (k < l->lines.size() && matches(l->lines[k], s, !strict)) ++k;
            else if (strict) dst::fail("callback-line", "line %zu of thread %d came to the callback as '%.60s' (%zu bytes)", k, l->id, s.c_str(), s.size());
        }
        if (!strict) while (k < l->lines.size() && l->lines[k].exempt) ++k;
        DST_CHECK(k == l->lines.size(), "lost-line", "thread %d wrote %zu lines, its callback saw %zu", l->id, l->lines.size(), k);
    }
    if (total > 3) dst::nontrivial();
    dst::cover(dst::hashMix(uint64_t(n * 16 + names * 8 + jumps * 4 + (strict ? 2 : 0) + midFlush), dst::hashMix(seen, exempted)));
}
struct Msg : eckit::UserMsg {
    std::vector<std::pair<int, std::string>> got;
    void add(int k, const std::string& s) { dst::Quiet q; got.emplace_back(k, s); }
    void infoMsg(const std::string& s) override { add(0, s); }
    void warningMsg(const std::string& s) override { add(1, s); }
    void errorMsg(const std::string& s) override { add(2, s); }
    void notifyClient(const std::string&) override {}
};
void user() {   // messages for the user of a thread
    int n = int(gen(1, 3));
    dst::note("user messages: %d threads", n);
    Threads t;
    for (int i = 0; i < n; ++i) t.go([=]() {
        Msg m;
        std::vector<std::pair<int, std::string>> want;
        eckit::Log::user().userMsg(&m);
        int kind = 0;
        for (int k = int(gen(1, 6)); k > 0; --k) {
            kind = int(gen(0, 2));
            int lines = int(gen(1, 3));
            std::ostream& out = kind == 0 ? eckit::Log::userInfo() : kind == 1 ? eckit::Log::userWarning() : eckit::Log::userError();
            for (int j = 0; j < lines; ++j) {
                std::string b = bodyOf(i, int(want.size()), lineSize());
                want.emplace_back(kind, b);
                put(out, b, gen(1, 3));
                if (j + 1 < lines || gen(0, 1)) out << '\n'; else out << std::endl;
            }
            if (gen(0, 1)) out << std::flush;
        }
        eckit::Log::user() << std::flush;
        eckit::Log::user().userMsg(nullptr);
        dst::Quiet q;
        for (size_t k = 0; k < want.size(); ++k) {
            DST_CHECK(k < m.got.size(), "lost-message", "%zu of %zu messages of thread %d came", m.got.size(), want.size(), i);
            DST_CHECK(m.got[k] == want[k], "message", "message %zu of thread %d came as '%.60s' of kind %d, not '%.60s' of kind %d", k, i, m.got[k].second.c_str(), m.got[k].first, want[k].second.c_str(), want[k].first);
        }
        DST_CHECK(m.got.size() == want.size(), "repeated-message", "%zu messages came, %zu were written", m.got.size(), want.size());
        if (want.size() > 3) dst::nontrivial();
        dst::cover(dst::hashMix(99, want.size()));
    });
}
void run() {
    if (gen(0, 9) == 0) user(); else rotation();
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"R01", initMain, run};
