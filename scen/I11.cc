// I11: reading messages from handles, matching them with splitters and decoders, and keeping them.
#include "handles.h"
#include "poison.h"
#include <iostream>
#define private public
#include "eckit/thread/AutoLock.h"
#include "eckit/thread/Mutex.h"
#include "eckit/config/ResourceMgr.h"
#undef private
#include "eckit/io/Buffer.h"
#include "eckit/io/BufferedHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/MultiHandle.h"
#include "eckit/io/PartHandle.h"
#include "eckit/io/PeekHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/message/Decoder.h"
#include "eckit/message/Message.h"
#include "eckit/message/MessageContent.h"
#include "eckit/message/Reader.h"
#include "eckit/message/Splitter.h"
using namespace scen;
using dst::gen;
DST_POISON
namespace {
using eckit::message::Message;
// A message is: the letter of its format (K for counted ones, T for terminated ones), the letter of its kind, its
// length or nothing, its text, a last byte.
int live, made, gone;
struct Content : eckit::message::MessageContent {
    std::string bytes;
    long long at;
    bool held = true;
    Content(const std::string& b, long long o) : bytes(b), at(o) { dst::Quiet q; live++; made++; }
    ~Content() override { dst::Quiet q; live--; gone++; DST_CHECK(held, "destroyed-twice", "the content of a message is destroyed twice"); held = false; }
    size_t length() const override { return bytes.size(); }
    eckit::Offset offset() const override { return at; }
    const void* data() const override { return bytes.data(); }
    void write(eckit::DataHandle& h) const override { ASSERT(h.write(bytes.data(), long(bytes.size())) == long(bytes.size())); }
    eckit::DataHandle* readHandle() const override { return new eckit::MemoryHandle(bytes.data(), bytes.size()); }
    std::string getString(const std::string& k) const override { return k == "kind" ? bytes.substr(1, 1) : ""; }
    long getLong(const std::string&) const override { return long(bytes.size()); }
    void print(std::ostream& s) const override { s << "Content"; }
};
struct Counted4 : eckit::message::Splitter {
    using Splitter::Splitter;
    Message next() override {
        unsigned char h[6];
        long n = handle_.peek(h, 6);
        if (n == 0) return Message();
        if (n < 6) throw eckit::ShortFile("header");
        size_t len = size_t(h[2]) << 24 | size_t(h[3]) << 16 | size_t(h[4]) << 8 | h[5];
        if (h[0] != 'K' || len < 7 || len > 100000) throw eckit::SeriousBug("not a message");
        long long at = (long long)handle_.position();
        std::string b(len, '?');
        size_t got = 0;
        while (got < len) {
            long r = handle_.read(&b[got], long(len - got));
            if (r < 0) throw eckit::ReadError("message");
            if (r == 0) throw eckit::ShortFile("message");
            got += size_t(r);
        }
        if (b.back() != '.') throw eckit::SeriousBug("message without end");
        return Message(new Content(b, at));
    }
    void print(std::ostream& s) const override { s << "Counted4"; }
};
struct Terminated : eckit::message::Splitter {
    using Splitter::Splitter;
    Message next() override {
        unsigned char c;
        if (handle_.peek(&c, 1) == 0) return Message();
        if (c != 'T') throw eckit::SeriousBug("not a message");
        size_t n = 1;
        while (handle_.peek(n) != '.') ++n;
        ++n;
        long long at = (long long)handle_.position();
        std::string b(n, '?');
        if (handle_.read(&b[0], long(n)) != long(n)) throw eckit::ShortFile("message");
        return Message(new Content(b, at));
    }
    void print(std::ostream& s) const override { s << "Terminated"; }
};
struct Never : eckit::message::Splitter { using Splitter::Splitter; Message next() override { dst::fail("wrong-splitter", "a splitter that matches nothing is used"); } void print(std::ostream&) const override {} };
bool fmt(eckit::PeekHandle& h, char c) { unsigned char x; return h.peek(&x, 1) == 1 && x == (unsigned char)c; }
}  // namespace
template <> bool eckit::message::SplitterBuilder<Counted4>::match(eckit::PeekHandle& h) const { return fmt(h, 'K'); }
template <> bool eckit::message::SplitterBuilder<Terminated>::match(eckit::PeekHandle& h) const { return fmt(h, 'T'); }
template <> bool eckit::message::SplitterBuilder<Never>::match(eckit::PeekHandle& h) const {
    // looks far ahead
    unsigned char b[20];
    long n = h.peek(b, sizeof b);
    return n > 0 && b[0] == '#';
}
namespace {
struct Dec : eckit::message::MessageDecoder {
    char kind;
    Dec(char k) : kind(k) {}
    void getMetadata(const Message& m, eckit::message::MetadataGatherer& g, const eckit::message::GetMetadataOptions&) const override { check(m); g.setValue("decoder", std::string(1, kind)); g.setValue("length", long(m.length())); }
    eckit::Buffer decode(const Message& m) const override { check(m); std::string s = std::string(1, kind) + std::string(static_cast<const char*>(m.data()), m.length()); return eckit::Buffer(s.data(), s.size()); }
    bool match(const Message& m) const override { return m.getString("kind") == std::string(1, kind); }
    void check(const Message& m) const { std::string k = m.getString("kind"); DST_CHECK(k == std::string(1, kind), "wrong-decoder", "a message of kind %s is decoded by the decoder of kind %c", k.c_str(), kind); }
    void print(std::ostream& s) const override { s << "Dec" << kind; }
};
struct Gather : eckit::message::MetadataGatherer {
    std::string decoder; long length = -1;
    void setValue(const std::string& k, const std::string& v) override { if (k == "decoder") decoder = v; }
    void setValue(const std::string& k, long v) override { if (k == "length") length = v; }
    void setValue(const std::string&, double) override {}
};
struct Known { std::string bytes; long long at; };
std::string make(bool counted, uint64_t tag) {
    char kind = "XYZ"[gen(0, 2)];
    std::string text = pattern(tag, 0, sizeNear(gen(0, 1) ? 20 : 64, 200));
    if (counted) {
        size_t len = text.size() + 7;
        std::string s = {'K', kind, char(len >> 24), char(len >> 16), char(len >> 8), char(len)};
        return s + text + ".";
    }
    for (auto& c : text) if (c == '.') c = ',';
    return std::string("T") + kind + text + ".";
}
void look(const Message& m, const Known& k, const char* who) {
    DST_CHECK(bool(m), "content", "%s: the message has no content", who);
    DST_CHECK(m.length() == k.bytes.size() && memcmp(m.data(), k.bytes.data(), k.bytes.size()) == 0, "content", "%s: the message has %zu bytes and should have %zu%s", who, m.length(), k.bytes.size(), m.length() == k.bytes.size() ? " (it differs)" : "");
    DST_CHECK((long long)m.offset() == k.at, "offset", "%s: the message is said to be at %lld instead of %lld", who, (long long)m.offset(), k.at);
}
void use(const Message& m, const Known& k, const char* who) {
    look(m, k, who);
    if (gen(0, 1)) {
        eckit::Buffer b = m.decode();
        std::string want = k.bytes.substr(1, 1) + k.bytes;
        DST_CHECK(std::string(static_cast<const char*>(b.data()), b.size()) == want, "decoded", "%s: the message of kind %c is decoded as kind %c (%zu bytes)", who, want[0], b.size() ? static_cast<const char*>(b.data())[0] : '-', b.size());
    }
    if (gen(0, 2) == 0) {
        Gather g;
        m.getMetadata(g);
        DST_CHECK(g.decoder == k.bytes.substr(1, 1) && g.length == long(k.bytes.size()), "metadata", "%s: metadata of a message of kind %c come from the decoder of kind %s", who, k.bytes[1], g.decoder.c_str());
    }
}
struct Slot { Message m; int known = -1; };
void run() {
    dst::enableIf(dst::F_PREEMPT, 0.7, 0.05, 0.4);
    dst::enableIf(dst::F_MEMPREEMPT, 0.5, 0.001, 0.03);
    dst::enableIf(dst::F_SHORTREAD, 0.7, 0.1, 0.8);
    dst::enableIf(dst::F_READERR, 0.25, 0.005, 0.1);
    dst::enableIf(dst::F_OPENERR, 0.05, 0.05, 0.2);
    eckit::ResourceMgr::instance().reset();
    eckit::ResourceMgr::instance().set("readerBuffer", "37");
    live = made = gone = 0;
    poisonOn = fillOn = true;
    std::vector<std::unique_ptr<Dec>> decs;
    std::string kinds = "XYZ";
    for (int i = 0; i < 3; ++i) { size_t j = gen(0, kinds.size() - 1); decs.emplace_back(new Dec(kinds[j])); kinds.erase(j, 1); }
    static std::deque<Known> known; known.clear();
    static std::vector<std::unique_ptr<Slot>> slots; slots.clear();
    static eckit::Mutex slotLock;
    int nslots = int(gen(1, 4));
    for (int i = 0; i < nslots; ++i) slots.emplace_back(new Slot);
    // kinds come and go only while nothing is read: a builder or decoder being destroyed is still registered
    std::unique_ptr<Dec> other;
    std::unique_ptr<eckit::message::SplitterBuilder<Never>> never;
    if (gen(0, 1)) other.reset(new Dec('?'));
    if (gen(0, 1)) never.reset(new eckit::message::SplitterBuilder<Never>);
    int nt = int(gen(1, 4));
    int total = 0, ended = 0, errors = 0;
    {
        Threads ts;
        for (int t = 0; t < nt; ++t) {
            ts.go([&, t] {
                char who[20];
                snprintf(who, sizeof who, "thread %d", t);
                Message own;
                int ownKnown = -1;
                for (uint64_t round = gen(1, 2); round > 0; --round) {
                    bool counted = gen(0, 1);
                    std::string all;
                    std::vector<std::pair<std::string, long long>> want;
                    for (uint64_t k = gen(1, 8); k > 0; --k) { std::string m = make(counted, gen(0, 1 << 20)); want.push_back({m, (long long)all.size()}); all += m; }
                    bool torn = gen(0, 4) == 0;
                    size_t whole = want.size();
                    if (torn) { all.resize(gen(1, all.size() - 1)); while (whole && size_t(want[whole - 1].second) + want[whole - 1].first.size() > all.size()) --whole; if (whole < want.size() && size_t(want[whole].second) == all.size()) torn = false; }
                    std::shared_ptr<Store> st = newStore(all);
                    bool toEnd = gen(0, 4) != 0;
                    size_t stopAt = toEnd ? ~size_t(0) : gen(0, want.size());
                    try {
                        std::unique_ptr<eckit::DataHandle> un;   // outlives the reader
                        std::unique_ptr<eckit::message::Reader> r;
                        int how = int(gen(0, 4));
                        dst::note("%s reads %zu %s messages, %zu bytes%s, handle %d", who, want.size(), counted ? "counted" : "terminated", all.size(), torn ? ", torn" : "", how);
                        bool byPath = false;
                        switch (how) {
                            case 0: r.reset(new eckit::message::Reader(new SimHandle(st))); break;
                            case 1: un.reset(new SimHandle(st)); r.reset(new eckit::message::Reader(*un)); break;
                            case 2: un.reset(new SimHandle(st)); un->openForRead(); r.reset(new eckit::message::Reader(*un, true)); break;
                            case 3: { std::string p = dst::scratch() + "/m" + std::to_string(t) + "-" + std::to_string(round); dst::writeFileRaw(p, all); r.reset(new eckit::message::Reader(eckit::PathName(p))); byPath = true; break; }
                            default: {   // several handles one after the other, cut anywhere
                                size_t cut = gen(0, all.size());
                                auto* m = new eckit::MultiHandle();
                                *m += new SimHandle(newStore(all.substr(0, cut)));
                                *m += new SimHandle(newStore(all.substr(cut)));
                                r.reset(new eckit::message::Reader(m));
                            }
                        }
                        size_t i = 0;
                        for (; i != stopAt; ++i) {
                            DST_CHECK((long long)r->position() == (i < want.size() ? want[i].second : (long long)all.size()) || torn, "position", "%s: the reader is at %lld before message %zu", who, (long long)r->position(), i);
                            Message m = r->next();
                            if (!m) break;
                            DST_CHECK(i < whole, "content", "%s: message %zu of %zu is read", who, i, whole);
                            Known k{want[i].first, want[i].second};
                            look(m, k, who);
                            int id;
                            { dst::Quiet q; total++; known.push_back(k); id = int(known.size()) - 1; }
                            use(m, k, who);
                            if (gen(0, 1)) { own = m; ownKnown = id; use(own, k, who); }
                            if (gen(0, 1)) {
                                eckit::AutoLock<eckit::Mutex> l(slotLock);
                                Slot& s = *slots[gen(0, slots.size() - 1)];
                                s.m = m; s.known = id;
                            }
                            if (gen(0, 1)) {
                                int kid; Message c;
                                { eckit::AutoLock<eckit::Mutex> l(slotLock); Slot& s = *slots[gen(0, slots.size() - 1)]; c = s.m; kid = s.known; }
                                if (kid >= 0) { Known kk; { dst::Quiet q; kk = known[size_t(kid)]; } if (gen(0, 1)) use(c, kk, who); own = c; ownKnown = kid; }
                                else DST_CHECK(!c, "content", "%s: a message with content comes out of nothing", who);
                            }
                            if (ownKnown >= 0 && gen(0, 1)) { Known kk; { dst::Quiet q; kk = known[size_t(ownKnown)]; } use(own, kk, who); }
                        }
                        if (i != stopAt) {
                            DST_CHECK(i == whole && !torn, "end", "%s: the end is announced after %zu of %zu messages%s", who, i, want.size(), torn ? " of a torn stream" : "");
                            if (gen(0, 1)) DST_CHECK(!r->next(), "end", "%s: a message comes after the end", who);
                            dst::Quiet q; ended++;
                        }
                        r.reset();
                        if (!byPath && how < 3) DST_CHECK(!st->isOpen, "left-open", "%s: the handle is left open", who);
                    }
                    catch (eckit::Exception& e) {
                        dst::Quiet q; errors++;
                        DST_CHECK(torn || dst::fired(dst::F_READERR) || dst::fired(dst::F_OPENERR), "spurious-error", "%s: error without any fault: %s", who, e.what());
                    }
                }
            });
        }
        ts.join();
    }
    slots.clear();
    DST_CHECK(live == 0 && made == gone, "leak", "%d messages are left of %d", live, made);
    if (total > 4) dst::nontrivial();
    dst::cover(dst::hashMix(dst::hashMix(uint64_t(nt), uint64_t(total)), dst::hashMix(uint64_t(ended), uint64_t(errors))));
}
void init() {
    initMain();
    eckit::ResourceMgr::instance().set("readerBuffer", "37");
    static eckit::message::SplitterBuilder<Counted4> c;
    static eckit::message::SplitterBuilder<Terminated> t;
    static Dec d('W');
    // what is set up once is set up here
    SimHandle h(newStore("TWx."));
    h.yields = false;
    eckit::message::Reader r(h);
    Message m = r.next();
    m.decode();
    std::cout.setstate(std::ios::badbit);
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"I11", init, run};
