// T06: reference counting between threads.
#include "common.h"
#include "poison.h"
#include "eckit/io/SharedBuffer.h"
#include "eckit/memory/Counted.h"
#include "eckit/value/Value.h"
#include "eckit/message/Message.h"
#include "eckit/message/MessageContent.h"
using namespace scen;
using dst::gen;
DST_POISON

namespace {
int destroyed, inDtor;
bool released;
struct Obj : eckit::Counted {
    uint64_t magic = 0x1234567890abcdefull;
    int* owners;
    Obj(int* o) : owners(o) {}
    ~Obj() override { dst::Quiet q; destroyed++; DST_CHECK(destroyed == 1, "destroyed-twice", "object destroyed %d times", destroyed); DST_CHECK(*owners == 0, "destroyed-owned", "object destroyed while %d owners hold it", *owners); magic = 0; }
};
void plain() {
    int* owners = new int(1);
    Obj* o = new Obj(owners);
    o->attach();
    int n = int(gen(2, 4));
    dst::note("counted object, %d threads", n);
    {
        Threads t;
        for (int i = 0; i < n; ++i) {
            o->attach(); { dst::Quiet q; ++*owners; }
            t.go([=]() {
                int mine = 1;
                for (uint64_t k = gen(0, 5); k > 0; --k) {
                    if (gen(0, 1)) { o->attach(); { dst::Quiet q; ++*owners; } mine++; }
                    else if (mine > 1) { { dst::Quiet q; --*owners; } o->detach(); mine--; }
                    { dst::Quiet q; DST_CHECK(o->magic == 0x1234567890abcdefull, "use-after-destroy", "object gone while thread %d owns it", i); }
                    if (gen(0, 1)) dst::yield();
                }
                while (mine) { { dst::Quiet q; --*owners; } o->detach(); mine--; }
            });
        }
        { dst::Quiet q; --*owners; }
        o->detach();
    }
    DST_CHECK(destroyed == 1, "leak", "object destroyed %d times after all owners let go", destroyed);
    dst::cover(dst::hashMix(1, uint64_t(n)));
}
void check(const eckit::SharedBuffer& b, uint64_t tag) {
    dst::Quiet q;
    const unsigned char* d = static_cast<const unsigned char*>(const_cast<eckit::SharedBuffer&>(b).data());
    size_t n = b.size();
    DST_CHECK(n < 100000, "content", "shared buffer of %zu bytes", n);
    for (size_t i = 0; i < n; ++i) DST_CHECK(d[i] == patByte(tag, i), "content", "byte %zu of a shared buffer changed while held", i);
}
void buffers() {
    int n = int(gen(2, 4)), nb = int(gen(1, 3));
    dst::note("shared buffers: %d, %d threads", nb, n);
    {
        std::vector<eckit::SharedBuffer> bs;
        std::vector<uint64_t> tags;
        for (int i = 0; i < nb; ++i) {
            size_t sz = gen(0, 64);
            eckit::CountedBuffer* raw = gen(0, 1) ? new eckit::CountedBuffer(sz) : nullptr;
            eckit::SharedBuffer b = raw ? eckit::SharedBuffer(raw) : eckit::SharedBuffer(sz);
            for (size_t k = 0; k < sz; ++k) static_cast<unsigned char*>(b.data())[k] = patByte(uint64_t(i), k);
            bs.push_back(b); tags.push_back(uint64_t(i));
            if (raw && gen(0, 1)) { bs.push_back(eckit::SharedBuffer(raw)); tags.push_back(uint64_t(i)); }   // a second owner of the same buffer
        }
        Threads t;
        for (int i = 0; i < n; ++i) t.go([=]() {
            std::vector<std::pair<eckit::SharedBuffer, uint64_t>> mine;
            for (size_t k = 0; k < bs.size(); ++k) mine.emplace_back(bs[k], tags[k]);
            for (uint64_t k = gen(1, 6); k > 0; --k) {
                size_t a = gen(0, mine.size() - 1), b = gen(0, mine.size() - 1);
                switch (gen(0, 3)) {
                    case 0: mine[a] = mine[b]; break;
                    case 1: { eckit::SharedBuffer c(mine[a].first); check(c, mine[a].second); break; }
                    case 2: { auto m2 = mine[a]; mine.push_back(m2); break; }
                    default: if (mine.size() > 1) mine.pop_back(); break;
                }
                for (auto& m : mine) check(m.first, m.second);
            }
        });
        if (gen(0, 1)) bs.clear();
    }
    dst::cover(dst::hashMix(2, uint64_t(n * 8 + nb)));
}
void values() {
    int n = int(gen(2, 3));
    dst::note("shared values, %d threads", n);
    eckit::Value v(eckit::Value::makeMap());
    eckit::ValueList vl; vl.push_back(eckit::Value(std::string("a long enough text to be allocated"))); vl.push_back(eckit::Value(42ll));
    eckit::Value l = eckit::Value::makeList(vl); vl.clear();
    v["list"] = l; v["text"] = std::string("another long enough text to be allocated");
    Threads t;
    for (int i = 0; i < n; ++i) t.go([=]() {
        for (uint64_t k = gen(1, 3); k > 0; --k) {
            eckit::Value c = v;
            eckit::Value s = c["text"];
            eckit::Value e = c["list"];
            c = eckit::Value();
            std::string x = s;
            DST_CHECK(x == "another long enough text to be allocated", "content", "shared value changed");
            DST_CHECK(e.size() == 2 && std::string(e[0]) == "a long enough text to be allocated" && (long long)(e[1]) == 42, "content", "shared list changed");
            e = s;
        }
    });
    v = eckit::Value(1ll); l = eckit::Value(2ll);
    t.join();
    dst::cover(dst::hashMix(3, uint64_t(n)));
}
struct MC : eckit::message::MessageContent {
    std::string s;
    MC(const std::string& x) : s(x) {}
    ~MC() override { dst::Quiet q; destroyed++; DST_CHECK(destroyed == 1, "destroyed-twice", "message content destroyed twice"); s.assign(s.size(), '?'); }
    size_t length() const override { return s.size(); }
    const void* data() const override { return s.data(); }
    eckit::Offset offset() const override { return 0; }
    void print(std::ostream&) const override {}
};
void messages() {
    int n = int(gen(2, 4));
    dst::note("shared messages, %d threads", n);
    std::string ref = pattern(5, 0, 40);
    {
        eckit::message::Message m(new MC(ref));
        Threads t;
        for (int i = 0; i < n; ++i) t.go([=]() {
            eckit::message::Message mine(m), other;
            for (uint64_t k = gen(1, 4); k > 0; --k) {
                other = mine;
                if (gen(0, 1)) { eckit::message::Message x(other); mine = x; }
                dst::Quiet q;
                DST_CHECK(destroyed == 0, "destroyed-owned", "message content destroyed while held");
                DST_CHECK(mine.length() == 40 && std::string(static_cast<const char*>(mine.data()), 40) == ref, "content", "message changed");
            }
        });
        if (gen(0, 1)) m = eckit::message::Message();
    }
    DST_CHECK(destroyed == 1, "leak", "message content destroyed %d times", destroyed);
    dst::cover(dst::hashMix(4, uint64_t(n)));
}
void run() {
    poisonOn = true;
    switch (gen(0, 4)) { case 0: buffers(); break; case 1: values(); break; case 2: messages(); break; default: plain(); break; }
    dst::nontrivial();
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"T06", initMain, run};
