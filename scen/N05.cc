// N05: values and objects sent over a stream arrive intact, or the reader gets an error.
#include <csignal>
#include <cmath>
#include <fstream>
#include "common.h"
#include "handles.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
#include "eckit/filesystem/PathName.h"
#include "eckit/filesystem/URI.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/EmptyHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/Length.h"
#include "eckit/io/MMappedFileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/MultiHandle.h"
#include "eckit/io/Offset.h"
#include "eckit/io/PartFileHandle.h"
#include "eckit/io/PartHandle.h"
#include "eckit/io/TCPHandle.h"
#include "eckit/io/TeeHandle.h"
#include "eckit/io/URLHandle.h"
#include "eckit/io/cluster/NodeInfo.h"
#include "eckit/linalg/Matrix.h"
#include "eckit/linalg/SparseMatrix.h"
#include "eckit/linalg/Tensor.h"
#include "eckit/linalg/Vector.h"
#include "eckit/net/Endpoint.h"
#include "eckit/net/TCPClient.h"
#include "eckit/net/TCPServer.h"
#include "eckit/net/TCPStream.h"
#include "eckit/serialisation/FileStream.h"
#include "eckit/serialisation/FstreamStream.h"
#include "eckit/serialisation/HandleStream.h"
#include "eckit/serialisation/IfstreamStream.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/PipeStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/serialisation/Streamable.h"
#include "eckit/thread/AutoLock.h"
#include "eckit/types/Date.h"
#include "eckit/types/DateTime.h"
#include "eckit/types/Fraction.h"
#include "eckit/types/Time.h"
#include "eckit/types/Types.h"
#include "eckit/value/Properties.h"
#include "eckit/value/Value.h"
using namespace scen;
using namespace eckit;
using dst::gen;
namespace {
constexpr uint64_t SEC = 1000000000ull;
// ------------------------------------------------------------------ values
struct R {   // both ends derive the same values from a key
    uint64_t s;
    R(uint64_t k) : s(k * 0x9e3779b97f4a7c15ull + 1) {}
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    uint64_t n(uint64_t m) { return next() % m; }
    uint64_t bits() { uint64_t v = next(); switch (n(5)) { case 0: return n(4); case 1: return ~n(4); case 2: return v & 0xffffffffu; case 3: return uint64_t(1) << n(64); default: return v; } }
    std::string str(uint64_t max) { uint64_t k = next(), l = n(3) ? n(20) : n(max + 1); return pattern(k, 0, l); }
    std::string word() { std::string w; for (uint64_t l = 1 + n(8); l; --l) w += char('a' + n(26)); return w; }
    double dbl() { switch (n(6)) { case 0: return 0; case 1: return -double(n(1000)) / 7; case 2: return INFINITY; case 3: return 1e-310 * double(n(100)); default: return double(int64_t(next())) * 1e-3; } }
};
class Shape : public Streamable {
public:
    std::string name; long v;
    Shape(const std::string& n, long x) : name(n), v(x) {}
    Shape(Stream& s) : Streamable(s) { s >> name; s >> v; }
    void encode(Stream& s) const override { Streamable::encode(s); s << name; s << v; }
    static const ClassSpec& classSpec() { return spec; }
    const ReanimatorBase& reanimator() const override { return rean; }
    static ClassSpec spec;
    static Reanimator<Shape> rean;
};
class Circle : public Shape {
public:
    double r; std::vector<std::string> tags;
    Circle(const std::string& n, long x, double rr, const std::vector<std::string>& t) : Shape(n, x), r(rr), tags(t) {}
    Circle(Stream& s) : Shape(s) { s >> r; s >> tags; }
    void encode(Stream& s) const override { Shape::encode(s); s << r; s << tags; }
    static const ClassSpec& classSpec() { return spec; }
    const ReanimatorBase& reanimator() const override { return rean; }
    static ClassSpec spec;
    static Reanimator<Circle> rean;
};
class Stone : public Streamable {
public:
    Stone() {}
    Stone(Stream& s) : Streamable(s) {}
    static const ClassSpec& classSpec() { return spec; }
    const ReanimatorBase& reanimator() const override { return rean; }
    static ClassSpec spec;
    static Reanimator<Stone> rean;
};
ClassSpec Shape::spec = {&Streamable::classSpec(), "Shape"};
Reanimator<Shape> Shape::rean;
ClassSpec Circle::spec = {&Shape::classSpec(), "Circle"};
Reanimator<Circle> Circle::rean;
ClassSpec Stone::spec = {&Streamable::classSpec(), "Stone"};
Reanimator<Stone> Stone::rean;

Value value(R& r, int depth) {
    switch (r.n(depth > 2 ? 8 : 11)) {
        case 0: return Value();
        case 1: return Value(r.n(2) == 0);
        case 2: return Value(static_cast<long long>(r.bits()));
        case 3: return Value(r.dbl());
        case 4: return Value(r.str(300));
        case 5: return Value(Date(long(19500101 + r.n(28) + 100 * r.n(12) + 10000 * r.n(120))));
        case 6: return Value(Time(long(r.n(24)), long(r.n(60)), long(r.n(60))));
        case 7: return Value(DateTime(Date(long(19500101 + r.n(28) + 100 * r.n(12) + 10000 * r.n(120))), Time(long(r.n(24)), long(r.n(60)), long(r.n(60)))));
        case 8: { ValueList l; for (uint64_t k = r.n(5); k; --k) l.push_back(value(r, depth + 1)); return Value::makeList(l); }
        case 9: { ValueMap m; for (uint64_t k = r.n(5); k; --k) { std::string w = r.word(); m[Value(w)] = value(r, depth + 1); } return Value::makeMap(m); }
        default: { Value m = Value::makeOrderedMap(); for (uint64_t k = r.n(5); k; --k) { std::string w = r.word(); m[w] = value(r, depth + 1); } return m; }
    }
}
DataHandle* handle(R& r, int depth) {
    auto lists = [&](OffsetList& o, LengthList& l) { for (uint64_t k = 1 + r.n(4), at = 0; k; --k) { at += 1 + r.n(1ull << 40); uint64_t len = 1 + r.n(1ull << 36); o.push_back(Offset(at)); l.push_back(Length(len)); at += len; } };
    switch (r.n(depth > 1 ? 6 : 9)) {
        case 0: { std::string w = r.word(); return new FileHandle("/d/" + w, r.n(2)); }
        case 1: { OffsetList o; LengthList l; lists(o, l); return new PartFileHandle(PathName("/d/" + r.word()), o, l); }
        case 2: return new EmptyHandle();
        case 3: { std::string w = r.word(); return new TCPHandle(w, int(r.n(65536))); }
        case 4: if (!depth) return new MMappedFileHandle("/d/" + r.word()); else return new EmptyHandle();
        case 5: { std::string w = r.word(); return new URLHandle("http://x/" + w, r.n(2)); }
        case 6: { OffsetList o; LengthList l; lists(o, l); return new PartHandle(handle(r, depth + 1), o, l); }
        case 7: { MultiHandle* m = new MultiHandle(); for (uint64_t k = r.n(4); k; --k) (*m) += handle(r, depth + 1); if (r.n(2)) (*m) += Length(r.n(1ull << 40)); return m; }
        default: { TeeHandle* t = new TeeHandle(); for (uint64_t k = 1 + r.n(3); k; --k) (*t) += handle(r, depth + 1); return t; }
    }
}
NodeInfo node(R& r) {
    NodeInfo n;
    n.user(r.word()); n.name(r.word()); n.node(r.word()); n.host(r.word()); n.port(int(r.n(65536))); n.id(TaskID(r.n(1u << 31))); n.task(long(r.n(100000)));
    std::set<std::string> a;
    for (uint64_t k = r.n(4); k; --k) a.insert(r.word());
    n.attributes(a);
    return n;
}
template <class F> std::string enc(F f) { Buffer b(64); ResizableMemoryStream s(b); f(s); return std::string(static_cast<const char*>(b.data()), s.position()); }
enum Kind { CHAR, UCHAR, INT, BOOL, UINT, SHORT, USHORT, LONG, ULONG, LLONG, ULLONG, DOUBLE, STRING, CSTR, BLOB, BUFFER, LARGE, SCALARS,
    EXCEPTION = SCALARS, VECLONG, VECSTR, SETSTR, MAPSTR, MAPVAL, VALUE, LENGTH, OFFSET, OFFLIST, PATH, URIS, FRACTION, NODE, ENDPOINT, OBJECT, HANDLE, VECTOR, MATRIX, SPARSE, TENSOR, RAWOBJ, PROPS, NEST, NKINDS };
struct Item { int kind; uint64_t key, size; };
const int tagOf[SCALARS] = {0, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 11, 12, 12, 13};

std::string blobOf(const Item& it) { return pattern(it.key, 0, it.size); }
std::vector<linalg::Triplet> triplets(R& r, size_t rows, size_t cols) {
    std::set<std::pair<size_t, size_t>> at;
    for (uint64_t k = 1 + r.n(8); k; --k) at.insert({r.n(rows), r.n(cols)});
    std::vector<linalg::Triplet> t;
    for (auto& p : at) t.emplace_back(p.first, p.second, 1.5 + double(r.n(100)));
    return t;
}
linalg::TensorDouble tensor(R& r, std::vector<linalg::Size>& shape, std::vector<double>& data, bool& left) {
    shape.clear();
    size_t n = 1;
    for (uint64_t k = 1 + r.n(3); k; --k) { shape.push_back(1 + r.n(4)); n *= shape.back(); }
    left = r.n(2);
    data.resize(n);
    for (auto& d : data) d = double(int64_t(r.next()) % 1000) / 8;
    linalg::TensorDouble t(shape, left ? linalg::TensorDouble::Layout::Left : linalg::TensorDouble::Layout::Right);
    memcpy(t.data(), data.data(), n * sizeof(double));
    return t;
}
void put(Stream& s, const Item& it) {
    R r(it.key);
    switch (it.kind) {
        case CHAR: s << char(r.bits()); break;
        case UCHAR: s << static_cast<unsigned char>(r.bits()); break;
        case INT: s << int(r.bits()); break;
        case BOOL: s << (r.n(2) == 1); break;
        case UINT: s << unsigned(r.bits()); break;
        case SHORT: s << short(r.bits()); break;
        case USHORT: s << static_cast<unsigned short>(r.bits()); break;
        case LONG: s << long(r.bits()); break;
        case ULONG: s << static_cast<unsigned long>(r.bits()); break;
        case LLONG: s << static_cast<long long>(r.bits()); break;
        case ULLONG: s << static_cast<unsigned long long>(r.bits()); break;
        case DOUBLE: s << r.dbl(); break;
        case STRING: s << blobOf(it); break;
        case CSTR: { std::string w = r.word(); s << w.c_str(); break; }
        case BLOB: { std::string b = blobOf(it); s.writeBlob(b.data(), b.size()); break; }
        case BUFFER: { std::string b = blobOf(it); Buffer x(b.data(), b.size()); s << x; break; }
        case LARGE: { std::string b = blobOf(it); s.writeLargeBlob(b.data(), b.size()); break; }
        case EXCEPTION: s << UserError("trouble " + r.word()); break;
        case VECLONG: { std::vector<long> v(r.n(20)); for (auto& x : v) x = long(int32_t(r.bits())); s << v; break; }
        case VECSTR: { std::vector<std::string> v(r.n(10)); for (auto& x : v) x = r.str(100); s << v; break; }
        case SETSTR: { std::set<std::string> v; for (uint64_t k = r.n(9); k; --k) v.insert(r.str(50)); s << v; break; }
        case MAPSTR: { std::map<std::string, std::string> m; for (uint64_t k = r.n(9); k; --k) { std::string w = r.word(); m[w] = r.str(100); } s << m; break; }
        case MAPVAL: { std::map<std::string, Value> m; for (uint64_t k = r.n(6); k; --k) { std::string w = r.word(); m[w] = value(r, 1); } s << m; break; }
        case VALUE: s << value(r, 0); break;
        case LENGTH: s << Length(static_cast<long long>(r.n(1ull << 62))); break;
        case OFFSET: s << Offset(static_cast<long long>(r.n(1ull << 62))); break;
        case OFFLIST: { OffsetList o; LengthList l; for (uint64_t k = r.n(12); k; --k) { o.push_back(Offset(static_cast<long long>(r.n(1ull << 50)))); l.push_back(Length(static_cast<long long>(r.n(1ull << 50)))); } s << o; s << l; break; }
        case PATH: s << PathName("/" + r.word() + "/" + r.word()); break;
        case URIS: s << URI("file", "//" + r.word() + "/" + r.word()); break;
        case FRACTION: { long long a = static_cast<long long>(r.n(1u << 30)), b = 1 + static_cast<long long>(r.n(1u << 20)); s << Fraction(a, b); break; }
        case NODE: s << node(r); break;
        case ENDPOINT: { std::string w = r.word(); s << net::Endpoint(w, int(1 + r.n(65000))); break; }
        case OBJECT: {
            std::string w = r.str(60);
            long v = long(int32_t(r.bits()));
            if (r.n(2)) { double d = r.dbl(); std::vector<std::string> t(r.n(4)); for (auto& x : t) x = r.word(); s << Circle(w, v, d, t); }
            else s << Shape(w, v);
            break;
        }
        case HANDLE: { std::unique_ptr<DataHandle> h(handle(r, 0)); s << *h; break; }
        case VECTOR: { linalg::Vector v(1 + r.n(20)); for (size_t k = 0; k < v.size(); ++k) v[k] = r.dbl(); s << v; break; }
        case MATRIX: { size_t a = 1 + r.n(5), b = 1 + r.n(5); linalg::Matrix m(a, b); for (size_t k = 0; k < a * b; ++k) m.data()[k] = r.dbl(); s << m; break; }
        case SPARSE: { size_t a = 1 + r.n(6), b = 1 + r.n(6); linalg::SparseMatrix m(a, b, triplets(r, a, b)); s << m; break; }
        case TENSOR: { std::vector<linalg::Size> sh; std::vector<double> d; bool left; linalg::TensorDouble t = tensor(r, sh, d, left); s << t; break; }
        case RAWOBJ: { s.startObject(); std::string w = r.word(); s << w; if (r.n(2)) s << int(r.n(1000)); s.endObject(); break; }
        case NEST: { uint64_t d = 1 + r.n(4); for (uint64_t k = 0; k < d; ++k) { s.startObject(); s << int(k); } for (uint64_t k = 0; k < d; ++k) s.endObject(); s << int(d); break; }
        case PROPS: { Properties p; for (uint64_t k = r.n(5); k; --k) { std::string w = r.word(); p.set(w, value(r, 2)); } s << p; break; }
    }
}
[[noreturn]] void altered(const Item& it, int i) { dst::fail("altered", "item %d (kind %d, key %llu, size %llu) arrives altered", i, it.kind, (unsigned long long)it.key, (unsigned long long)it.size); }
#define SAME(cond) do { if (!(cond)) altered(it, i); } while (0)
template <class T> void getEq(Stream& s, T want, const Item& it, int i) { T x; s >> x; SAME(memcmp(&x, &want, sizeof x) == 0); }
void reanim(const Item& it, int i, const Streamable* o) {
    std::unique_ptr<const Streamable> own(o);
    if (!o) throw UserError("no object");
    SAME(enc([&](Stream& e) { put(e, it); }) == enc([&](Stream& e) { e << *o; }));
}
// reads an item as it was sent
void get(Stream& s, const Item& it, int i) {
    R r(it.key);
    auto same = [&](const std::function<void(Stream&)>& f) { SAME(enc([&](Stream& e) { put(e, it); }) == enc(f)); };
    auto bytes = [&](const std::string& a) { SAME(a == blobOf(it)); };
    switch (it.kind) {
        case CHAR: getEq(s, char(r.bits()), it, i); break;
        case UCHAR: getEq(s, static_cast<unsigned char>(r.bits()), it, i); break;
        case INT: getEq(s, int(r.bits()), it, i); break;
        case BOOL: getEq(s, r.n(2) == 1, it, i); break;
        case UINT: getEq(s, unsigned(r.bits()), it, i); break;
        case SHORT: getEq(s, short(r.bits()), it, i); break;
        case USHORT: getEq(s, static_cast<unsigned short>(r.bits()), it, i); break;
        case LONG: getEq(s, long(r.bits()), it, i); break;
        case ULONG: getEq(s, static_cast<unsigned long>(r.bits()), it, i); break;
        case LLONG: getEq(s, static_cast<long long>(r.bits()), it, i); break;
        case ULLONG: getEq(s, static_cast<unsigned long long>(r.bits()), it, i); break;
        case DOUBLE: getEq(s, r.dbl(), it, i); break;
        case STRING: { std::string x = "before"; s >> x; bytes(x); break; }
        case CSTR: { std::string x; s >> x; SAME(x == r.word()); break; }
        case BLOB: { std::string x(it.size, '?'); s.readBlob(&x[0], x.size()); bytes(x); break; }
        case BUFFER: { Buffer b(it.size); s >> b; bytes(std::string(static_cast<const char*>(b.data()), b.size())); break; }
        case LARGE: { std::string x(it.size, '?'); s.readLargeBlob(&x[0], x.size()); bytes(x); break; }
        case EXCEPTION: {
            try { int x; s >> x; }
            catch (RemoteException& e) { SAME(std::string(e.what()).find("trouble " + r.word()) != std::string::npos); break; }
            altered(it, i);
        }
        case VECLONG: { std::vector<long> v; s >> v; same([&](Stream& e) { e << v; }); break; }
        case VECSTR: { std::vector<std::string> v; s >> v; same([&](Stream& e) { e << v; }); break; }
        case SETSTR: { std::set<std::string> v; s >> v; same([&](Stream& e) { e << v; }); break; }
        case MAPSTR: { std::map<std::string, std::string> m; m["old"] = "x"; s >> m; same([&](Stream& e) { e << m; }); break; }
        case MAPVAL: { std::map<std::string, Value> m; s >> m; same([&](Stream& e) { e << m; }); break; }
        case VALUE: { Value v(s); same([&](Stream& e) { e << v; }); break; }
        case LENGTH: { Length x; s >> x; SAME(x == Length(static_cast<long long>(r.n(1ull << 62)))); break; }
        case OFFSET: { Offset x; s >> x; SAME(x == Offset(static_cast<long long>(r.n(1ull << 62)))); break; }
        case OFFLIST: { OffsetList o; LengthList l; s >> o; s >> l; same([&](Stream& e) { e << o; e << l; }); break; }
        case PATH: { PathName p; s >> p; std::string a = r.word(), b = r.word(); (void)a; (void)b; same([&](Stream& e) { e << p; }); break; }
        case URIS: { URI u; s >> u; same([&](Stream& e) { e << u; }); break; }
        case FRACTION: { Fraction f; s >> f; long long a = static_cast<long long>(r.n(1u << 30)), b = 1 + static_cast<long long>(r.n(1u << 20)); SAME(f == Fraction(a, b)); break; }
        case NODE: { NodeInfo n; s >> n; same([&](Stream& e) { e << n; }); break; }
        case ENDPOINT: { net::Endpoint p(s); same([&](Stream& e) { e << p; }); break; }
        case OBJECT: reanim(it, i, it.size % 2 ? static_cast<Streamable*>(Reanimator<Shape>::reanimate(s)) : ReanimatorBase::reanimate(s)); break;
        case HANDLE: reanim(it, i, Reanimator<DataHandle>::reanimate(s)); break;
        case VECTOR: { linalg::Vector v(s); same([&](Stream& e) { e << v; }); break; }
        case MATRIX: { linalg::Matrix m(s); same([&](Stream& e) { e << m; }); break; }
        case SPARSE: { linalg::SparseMatrix m(s); same([&](Stream& e) { e << m; }); break; }
        case TENSOR: {
            linalg::TensorDouble t(s);
            std::vector<linalg::Size> sh; std::vector<double> d; bool left;
            tensor(r, sh, d, left);
            SAME(t.shape() == sh && t.size() == d.size() && memcmp(t.data(), d.data(), d.size() * sizeof(double)) == 0 && (t.layout() == linalg::TensorDouble::Layout::Left) == left);
            break;
        }
        case RAWOBJ: {
            if (!s.next()) throw UserError("no object");
            std::string w; s >> w; SAME(w == r.word());
            bool more = r.n(2);
            if (s.endObjectFound()) SAME(!more);
            else { int n; s >> n; SAME(more && n == int(r.n(1000))); }
            s.skipEndObject();
            break;
        }
        case NEST: {   // the ends of the objects are left to whoever reads next
            uint64_t d = 1 + r.n(4);
            int x;
            for (uint64_t k = 0; k < d; ++k) { if (!s.next()) throw UserError("no object"); s >> x; SAME(x == int(k)); }
            s >> x;
            SAME(x == int(d));
            break;
        }
        case PROPS: { Properties p(s); same([&](Stream& e) { e << p; }); break; }
    }
}
// asks for a value of another kind
void getWrong(Stream& s, const Item& it, int i, uint64_t pick) {
    int w;
    do { w = int(pick++ % SCALARS); } while (tagOf[w] == tagOf[it.kind] || (w == LONG && it.kind == LLONG) || (w == ULONG && it.kind == ULLONG) || (w == LLONG && it.kind == LONG) || (w == ULLONG && it.kind == ULONG));
    dst::note("item %d (kind %d) is asked for as kind %d", i, it.kind, w);
    std::string buf(64, '?');
    switch (w) {
        case CHAR: { char x; s >> x; break; }
        case UCHAR: { unsigned char x; s >> x; break; }
        case INT: if (pick % 3) { int x; s >> x; } else { int x; if (!s.next(x)) throw UserError("end"); } break;
        case BOOL: { bool x; s >> x; break; }
        case UINT: { unsigned x; s >> x; break; }
        case SHORT: { short x; s >> x; break; }
        case USHORT: { unsigned short x; s >> x; break; }
        case LONG: { long x; s >> x; break; }
        case ULONG: { unsigned long x; s >> x; break; }
        case LLONG: { long long x; s >> x; break; }
        case ULLONG: { unsigned long long x; s >> x; break; }
        case DOUBLE: { double x; s >> x; break; }
        case STRING: case CSTR: if (pick % 2) { std::string x; s >> x; } else { std::string x; if (!s.next(x)) throw UserError("end"); } break;
        case BLOB: s.readBlob(&buf[0], it.size < 64 ? it.size : 64); break;
        case BUFFER: { Buffer b(it.size); s >> b; break; }
        default: s.readLargeBlob(&buf[0], it.size < 64 ? it.size : 64); break;
    }
    dst::fail("wrong-kind", "item %d of kind %d is returned as a value of kind %d", i, it.kind, w);
}
// ------------------------------------------------------------------ the two ends
constexpr int MAXI = 40;
struct Sh { int endSeen, readerGone, n, wrote, writerOk, writerErr, read, wrongAt, closed, readerDone; uint64_t wrongPick; Item items[MAXI]; int order[MAXI]; long end[MAXI]; };
Sh* sh;
int twoWriters;
bool disturbed() {
    for (dst::Fault f : {dst::F_CRASH, dst::F_NETRESET, dst::F_READERR, dst::F_WRITEERR, dst::F_NOSPACE, dst::F_CLOSEERR}) if (dst::fired(f)) return true;
    return false;
}
bool gone() { return disturbed() || sh->readerGone; }   // the reader may have left

void plan(uint64_t maxSize) {
    sh->n = int(gen(0, 14));
    for (int i = 0; i < sh->n; ++i) {
        sh->items[i].kind = gen(0, 2) == 0 ? int(gen(0, SCALARS - 1)) : int(gen(0, NKINDS - 1));
        sh->items[i].key = gen(0, 500);
        sh->items[i].size = sizeNear(1024, maxSize);
    }
    sh->wrongAt = gen(0, 3) == 0 && sh->n ? int(gen(0, uint64_t(sh->n) - 1)) : -1;
    if (sh->wrongAt >= 0 && sh->items[sh->wrongAt].kind >= SCALARS) sh->wrongAt = -1;
    sh->wrongPick = gen(0, 30);
}
// one writer or two, each item under the lock of the stream
void writeAll(Stream& s, int stopAt) {
    std::string why;
    auto one = [&](int i) {
        put(s, sh->items[i]);
        dst::Quiet q;
        sh->order[sh->wrote] = i;
        sh->end[sh->wrote] = long(s.bytesWritten());
        sh->wrote++;
    };
    try {
        if (!twoWriters) { for (int i = 0; i < sh->n && i != stopAt; ++i) one(i); }
        else {
            Threads t;
            std::atomic<int> bad{0};
            for (int k = 0; k < 2; ++k) t.go([&, k] {
                for (int i = k; i < sh->n; i += 2) {
                    AutoLock<Stream> lock(s);
                    if (bad) return;
                    try { s << i; one(i); } catch (std::exception& e) { why = e.what(); bad = 1; return; }
                }
            });
            t.join();
            if (bad) throw UserError(why);
        }
        sh->writerOk = sh->wrote == sh->n;
    }
    catch (std::exception& e) {
        dst::note("writer stops after %d items: %s", sh->wrote, e.what());
        sh->writerErr = 1;
        if (!gone()) dst::fail("spurious-failure", "item %d cannot be written though nothing happened: %s", sh->wrote, e.what());
        throw;
    }
}
// complete: items known to have reached the channel whole (-1: not known); tail: the channel holds part of another one
void readAll(Stream& s, int complete, bool tail, bool endThrows) {
    int k = 0;
    std::string why;
    bool wrong = false, end = false;
    try {
        for (;; ++k) {
            if (twoWriters) {
                int i;
                if (!s.next(i)) { end = true; break; }
                DST_CHECK(i >= 0 && i < sh->n && (complete < 0 || k > sh->wrote || sh->order[k] == i || k == sh->wrote), "altered", "group %d is announced as item %d", k, i);
                get(s, sh->items[i], i);
                sh->read = k + 1;
                continue;
            }
            if (k == sh->n || (complete >= 0 && k == complete && !tail)) {
                // nothing more was sent
                std::string str;
                int n; bool b;
                bool more;
                switch ((sh->wrongPick + uint64_t(k)) % 4) { case 0: more = s.next(str); break; case 1: more = s.next(n); break; case 2: more = s.next(b); break; default: more = s.next(); break; }
                if (more) dst::fail("made-up", "a value beyond the last is read");
                end = true;
                break;
            }
            if (k == sh->wrongAt) { wrong = true; getWrong(s, sh->items[k], k, sh->wrongPick); }
            get(s, sh->items[k], k);
            sh->read = k + 1;
        }
    }
    catch (std::exception& e) { why = e.what(); }
    dst::note("reader has %d of %d items%s %s", k, sh->n, end ? " and the end" : "", why.c_str());
    dst::cover(dst::hashMix(uint64_t(k) * 64 + uint64_t(sh->n), uint64_t(end) * 4 + uint64_t(wrong) * 2 + tail));
    if (wrong) sh->readerGone = 1;
    sh->endSeen = end;
    if (wrong && !end) return;
    if (end && complete >= 0) DST_CHECK(k == complete || (k == complete + 1 && tail), "made-up", "the end is announced after %d items, %d were sent", k, complete);
    if (!end && !disturbed() && complete >= 0) {
        bool ok = k >= complete && (tail || endThrows);
        DST_CHECK(ok, "spurious-failure", "item %d cannot be read though nothing happened: %s", k, why.c_str());
    }
    if (k > 3) dst::nontrivial();
}
std::string path;
void cutFile(int& complete, bool& tail) {
    bool ok;
    std::string d = dst::readFileRaw(path, &ok);
    uint64_t keep = d.size();
    if (gen(0, 1) && d.size()) { keep = gen(0, d.size() - 1); dst::writeFileRaw(path, d.substr(0, keep)); dst::note("the channel is cut at %llu of %zu bytes", (unsigned long long)keep, d.size()); }
    complete = 0; tail = false;
    while (complete < sh->wrote && uint64_t(sh->end[complete]) <= keep) ++complete;
    tail = keep != (complete ? uint64_t(sh->end[complete - 1]) : 0);
}
// a handle that gives and takes fewer bytes than asked for
class Crumbs : public DataHandle {
    DataHandle& h_;
public:
    Crumbs(DataHandle& h) : h_(h) {}
    Length openForRead() override { return h_.openForRead(); }
    void openForWrite(const Length& l) override { h_.openForWrite(l); }
    void openForAppend(const Length& l) override { h_.openForAppend(l); }
    long part(long n) { return n > 1 && gen(0, 3) == 0 ? long(gen(1, uint64_t(n))) : n; }
    long read(void* b, long n) override { return h_.read(b, part(n)); }
    long write(const void* b, long n) override { return h_.write(b, part(n)); }
    void close() override { h_.close(); }
    void flush() override { h_.flush(); }
    void print(std::ostream& s) const override { s << "Crumbs"; }
};
void memoryRun() {
    size_t cap = size_t(gen(0, 3) == 0 ? gen(0, 4000) : 200000);
    int complete; bool tail;
    std::string data;
    if (gen(0, 1)) {
        Buffer b(size_t(gen(1, 100)));
        ResizableMemoryStream s(b);
        writeAll(s, -1);
        data.assign(static_cast<const char*>(b.data()), s.position());
    }
    else {
        Buffer b(cap);
        MemoryStream s(b);
        try {
            for (int i = 0; i < sh->n; ++i) { put(s, sh->items[i]); sh->order[i] = i; sh->end[i] = long(s.position()); sh->wrote++; }
        }
        catch (WriteError&) { DST_CHECK(s.position() == cap, "spurious-failure", "%zu of %zu bytes are used and writing fails", s.position(), cap); }
        data.assign(static_cast<const char*>(b.data()), s.position());
    }
    path = dst::scratch() + "/m";
    dst::writeFileRaw(path, data);
    cutFile(complete, tail);
    data = dst::readFileRaw(path);
    MemoryStream s(data.data(), data.size());
    readAll(s, complete, tail, false);
}
void fileRun(int mode) {
    path = dst::scratch() + "/f";
    bool failed = false;
    {
        std::function<void(Stream&)> w = [](Stream& s) { writeAll(s, -1); };
        try {
            if (mode == 0) {
                FileStream s(path, "w");
                try { w(s); } catch (...) { failed = true; }
                s.close();
            }
            else if (mode == 1) {
                FileHandle f(path);
                Crumbs c(f);
                DataHandle& h = gen(0, 1) ? static_cast<DataHandle&>(c) : f;
                h.openForWrite(0);
                HandleStream s(h);
                try { w(s); } catch (...) { failed = true; }
                h.close();
            }
            else {
                std::fstream f(path, std::ios::out | std::ios::binary);
                FstreamStream s(f);
                try { w(s); } catch (...) { failed = true; }
                f.close();
                if (f.fail()) failed = true;
            }
        }
        catch (std::exception& e) {
            dst::note("close: %s", e.what());
            failed = true;
            if (!disturbed()) dst::fail("spurious-failure", "the channel cannot be closed though nothing happened: %s", e.what());
        }
    }
    if (failed) return;   // the writer was told
    DST_CHECK(dst::existsRaw(path), "lost", "the writer was not told that there is no file");
    DST_CHECK(long(dst::readFileRaw(path).size()) == (sh->wrote ? sh->end[sh->wrote - 1] : 0), "lost", "%ld bytes were written without an error and %zu are in the file", sh->wrote ? sh->end[sh->wrote - 1] : 0, dst::readFileRaw(path).size());
    int complete; bool tail;
    cutFile(complete, tail);
    try {
        if (mode == 0) {
            FileStream s(path, "r");
            readAll(s, complete, tail, false);
            s.close();
        }
        else if (mode == 1) {
            std::string d = dst::readFileRaw(path);
            switch (gen(0, 3)) {
                case 0: { FileHandle f(path); f.openForRead(); HandleStream s(f); readAll(s, complete, tail, false); f.close(); break; }
                case 1: { FileHandle f(path); Crumbs c(f); c.openForRead(); HandleStream s(c); readAll(s, complete, tail, false); c.close(); break; }
                case 2: { Buffer b(d.data(), d.size()); MemoryHandle m(b); m.openForRead(); HandleStream s(m); readAll(s, complete, tail, false); m.close(); break; }
                default: {
                    // the bytes come in pieces
                    MultiHandle m;
                    uint64_t at = 0;
                    while (at < d.size()) { uint64_t l = gen(1, d.size() - at); m += new PartFileHandle(path, Offset(static_cast<long long>(at)), Length(static_cast<long long>(l))); at += l; }
                    m.openForRead();
                    HandleStream s(m);
                    readAll(s, complete, tail, false);
                    m.close();
                }
            }
        }
        else {
            if (gen(0, 1)) { std::ifstream f(path, std::ios::binary); IfstreamStream s(f); readAll(s, complete, tail, true); }
            else { std::fstream f(path, std::ios::in | std::ios::binary); FstreamStream s(f); readAll(s, complete, tail, true); }
        }
    }
    catch (std::exception& e) { if (!disturbed()) dst::fail("spurious-failure", "the channel cannot be opened or closed for reading though nothing happened: %s", e.what()); }
}
struct Ends { net::TCPSocket so; };
void netRun(bool pipe) {
    bool serverWrites = gen(0, 1), crashes = gen(0, 4) == 0, instant = gen(0, 1);
    int stopAt = gen(0, 3) == 0 ? int(gen(0, 14)) : -1;
    static const int win[] = {1, 300, 4096, 65536};
    dst::netWindow(win[gen(0, 3)] + int(gen(0, 200)));
    if (crashes) { dst::enable(dst::F_CRASH, 0.002 * double(gen(1, 20))); dst::faultBudget(dst::F_CRASH, 1); }
    auto end = [=](net::TCPSocket& so, bool writes, int fd) {
        if (writes && crashes) dst::crashable(true);
        std::unique_ptr<Stream> s;
        if (pipe) s.reset(new PipeStream(fd, fd));   // closes it
        else if (instant) s.reset(new net::InstantTCPStream(so));
        else s.reset(new net::TCPStream(so));
        if (writes) { writeAll(*s, stopAt); sh->closed = 1; }
        else { readAll(*s, -1, false, false); sh->readerDone = 1; }
    };
    auto guard = [=](const std::function<void()>& f) {
        try { f(); } catch (std::exception& e) { dst::note("%s", e.what()); if (!gone()) dst::fail("spurious-failure", "the connection fails though nothing happened: %s", e.what()); }
    };
    int a = dst::spawn([=] { guard([=] {
        if (pipe) {
            signal(SIGPIPE, SIG_IGN);
            sockaddr_in a{};
            a.sin_family = AF_INET; a.sin_port = htons(7001); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            int l = ::socket(AF_INET, SOCK_STREAM, 0);
            if (::bind(l, reinterpret_cast<sockaddr*>(&a), sizeof a) || ::listen(l, 5)) throw UserError("listen");
            int fd;
            do { fd = ::accept(l, nullptr, nullptr); } while (fd < 0 && errno == EINTR);
            ::close(l);
            if (fd < 0) throw UserError("accept");
            net::TCPSocket none;
            end(none, serverWrites, fd);
            return;
        }
        net::TCPServer srv(7001);
        net::TCPSocket so(srv.accept());
        end(so, serverWrites, -1);
    }); }, "server");
    int b = dst::spawn([=] { guard([=] {
        if (pipe) {
            signal(SIGPIPE, SIG_IGN);
            sockaddr_in a{};
            a.sin_family = AF_INET; a.sin_port = htons(7001); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            int fd = -1;
            for (int i = 0; i < 20; ++i) {
                fd = ::socket(AF_INET, SOCK_STREAM, 0);
                if (::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0) break;
                ::close(fd);
                fd = -1;
                dst::sleepNs(SEC);
            }
            if (fd < 0) throw UserError("connect");
            net::TCPSocket none;
            end(none, !serverWrites, fd);
            return;
        }
        net::TCPClient c;
        net::TCPSocket so(c.connect("localhost", 7001, 20, 60));
        end(so, !serverWrites, -1);
    }); }, "client");
    int w = serverWrites ? a : b, rd = serverWrites ? b : a;
    dst::join(w);
    for (int i = 0; i < 600 && dst::procAlive(rd); ++i) dst::sleepNs(SEC);
    if (dst::procAlive(rd)) {
        if (!disturbed()) dst::fail("hang:reader", "the reader still waits though the other end is gone");
        dst::crash(rd);
    }
    // the end seen by the reader is the end of what was sent
    if (sh->endSeen) DST_CHECK(sh->read >= sh->wrote, "made-up", "the end is announced after %d items, %d were sent", sh->read, sh->wrote);
    if (sh->readerDone && !twoWriters && sh->read < sh->wrote && sh->wrongAt < 0 && !disturbed()) dst::fail("lost", "%d of %d items arrived", sh->read, sh->wrote);
}
void oneRun() {
    sh = dst::sharedNew<Sh>();
    int mode = int(gen(0, 6));
    twoWriters = mode != 0 && gen(0, 3) == 0;
    plan(mode >= 4 ? 3000 : 6000);
    if (twoWriters) sh->wrongAt = -1;
    if (mode == 0) { memoryRun(); return; }
    if (mode >= 4) {
        dst::enableIf(dst::F_NETDELAY, 0.5, 0.05, 0.6);
        dst::enableIf(dst::F_NETFRAG, 0.5, 0.05, 0.8);
        dst::enableIf(dst::F_EINTR, 0.4, 0.01, 0.2);
        dst::enableIf(dst::F_NETRESET, 0.3, 0.001, 0.05);
        netRun(mode == 6);
        return;
    }
    if (gen(0, 2) == 0) {
        dst::enableIf(dst::F_SHORTREAD, 0.4, 0.05, 0.5);
        dst::enableIf(dst::F_READERR, 0.4, 0.01, 0.2);
        dst::enableIf(dst::F_SHORTWRITE, 0.3, 0.05, 0.5);
        dst::enableIf(dst::F_WRITEERR, 0.2, 0.01, 0.2);
        dst::enableIf(dst::F_NOSPACE, 0.1, 0.01, 0.2);
        dst::enableIf(dst::F_CLOSEERR, 0.1, 0.01, 0.2);
    }
    fileRun(mode - 1);
}
void init() { initMain(); NodeInfo::thisNode(); { Value v = Value::makeMap(); (void)v; } std::ostringstream o; o << 1.5 << std::endl; }
}  // namespace
namespace dst { const ScenarioDef scenario = {"N05", init, oneRun}; }
