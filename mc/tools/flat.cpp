// Rewrites a GOTO binary so that unions (the payloads of Rust enums, the states
// of coroutines) become structs holding an array of bytes, and accesses to their
// members become byte extracts.  The meaning is the same, as the layout is; but
// CBMC's symbolic execution propagates constants through arrays of bytes, not
// through a union that has been written as one member and is read as another
// (after it has been moved), even if only in a part that is common to both.
//
// usage: flat IN OUT
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
using namespace std;
typedef long L;

struct Node { int id; vector<int> sub; vector<pair<int, int>> named, comment; };
static vector<Node> N;
static vector<string> S;
static unordered_map<string, int> SI;
static vector<unsigned char> in;
static size_t pos = 0;
[[noreturn]] static void die(const string &m) { fprintf(stderr, "flat: %s\n", m.c_str()); exit(1); }
static int str(const string &s) {
    auto it = SI.find(s);
    if (it != SI.end()) return it->second;
    S.push_back(s);
    SI[s] = S.size() - 1;
    return S.size() - 1;
}
// ---- reading
static unsigned gbyte() { if (pos >= in.size()) die("end of file"); return in[pos++]; }
static unsigned long word() {
    unsigned long r = 0;
    int sh = 0;
    for (;;) {
        unsigned long b = gbyte();
        r |= (b & 0x7f) << sh;
        sh += 7;
        if (!(b & 0x80)) return r;
    }
}
static string gstr() {
    string s;
    for (;;) {
        unsigned c = gbyte();
        if (c == 0) return s;
        if (c == '\\') c = gbyte();
        s += (char)c;
    }
}
static vector<int> rstr, rnode;
static int sref() {
    unsigned long i = word();
    if (i >= rstr.size()) rstr.resize(i + 1, -1);
    if (rstr[i] < 0) { int s = str(gstr()); rstr[i] = s; }
    return rstr[i];
}
static int rref() {
    unsigned long i = word();
    if (i >= rnode.size()) rnode.resize(i + 1, -1);
    if (rnode[i] >= 0) return rnode[i];
    Node n;
    n.id = sref();
    while (in[pos] == 'S') { pos++; n.sub.push_back(rref()); }
    while (in[pos] == 'N') { pos++; int k = sref(); int v = rref(); n.named.push_back({k, v}); }
    while (in[pos] == 'C') { pos++; int k = sref(); int v = rref(); n.comment.push_back({k, v}); }
    if (gbyte() != 0) die("irep not terminated");
    N.push_back(n);
    return rnode[i] = N.size() - 1;
}
// ---- writing
static string out;
static void wword(unsigned long u) {
    for (;;) {
        unsigned char b = u & 0x7f;
        u >>= 7;
        if (!u) { out += (char)b; return; }
        out += (char)(b | 0x80);
    }
}
static void wgstr(const string &s) {
    for (char c : s) { if (c == 0 || c == '\\') out += '\\'; out += c; }
    out += '\0';
}
static vector<int> wstr_, wnode_;
static int ns = 0, nn = 0;
static void wsref(int s) {
    if ((size_t)s >= wstr_.size()) wstr_.resize(S.size(), -1);
    if (wstr_[s] < 0) { wstr_[s] = ns++; wword(wstr_[s]); wgstr(S[s]); }
    else wword(wstr_[s]);
}
static void wref(int i) {
    if ((size_t)i >= wnode_.size()) wnode_.resize(N.size(), -1);
    if (wnode_[i] >= 0) { wword(wnode_[i]); return; }
    wnode_[i] = nn++;
    wword(wnode_[i]);
    const Node n = N[i];
    wsref(n.id);
    for (int s : n.sub) { out += 'S'; wref(s); }
    for (auto &p : n.named) { out += 'N'; wsref(p.first); wref(p.second); }
    for (auto &p : n.comment) { out += 'C'; wsref(p.first); wref(p.second); }
    out += '\0';
}
// ---- program
struct Sym { int type, value, loc, name, module, base, mode, pretty; unsigned long ord, flags; };
struct Ins { int code, loc, guard; unsigned long type, target; vector<unsigned long> targets; vector<int> labels; };
struct Fn { string name; vector<Ins> ins; };
static vector<Sym> syms;
static vector<Fn> fns;
static unordered_map<int, int> symtype; // name -> type node

static int mk(const string &id, vector<int> sub = {}, vector<pair<string, int>> named = {}) {
    Node n;
    n.id = str(id);
    n.sub = sub;
    for (auto &p : named) n.named.push_back({str(p.first), p.second});
    N.push_back(n);
    return N.size() - 1;
}
static int leaf(const string &id) {
    static unordered_map<string, int> m;
    auto it = m.find(id);
    if (it != m.end()) return it->second;
    return m[id] = mk(id);
}
static int get(int n, const char *k) {
    int s = str(k);
    for (auto &p : N[n].named) if (p.first == s) return p.second;
    for (auto &p : N[n].comment) if (p.first == s) return p.second;
    return -1;
}
static string gets(int n, const char *k) { int v = get(n, k); return v < 0 ? "" : S[N[v].id]; }
static const string &id(int n) { return S[N[n].id]; }
static unordered_map<int, L> sizes;
static int follow(int t) {
    if (id(t) == "struct_tag" || id(t) == "union_tag") {
        auto it = symtype.find(str(gets(t, "identifier")));
        return it == symtype.end() ? -1 : it->second;
    }
    return t;
}
static L konst(int e) {
    if (id(e) != "constant") return -1;
    return strtol(gets(e, "value").c_str(), 0, 16);
}
// In bytes, or -1.
static L size_of(int t) {
    auto it = sizes.find(t);
    if (it != sizes.end()) return it->second;
    L r = -1;
    const string &i = id(t);
    int f = follow(t);
    if (f >= 0 && (id(f) == "struct" || id(f) == "union")) {
        r = 0;
        int c = get(f, "components");
        if (c >= 0) {
            vector<int> cs = N[c].sub;
            for (int k : cs) {
                L s = size_of(get(k, "type"));
                if (s < 0) { r = -1; break; }
                if (id(f) == "struct") r += s; else if (s > r) r = s;
            }
        }
    } else if (i == "array" || i == "vector") {
        int z = get(t, "size");
        L k = z < 0 ? -1 : konst(z);
        L s = N[t].sub.empty() ? -1 : size_of(N[t].sub[0]);
        r = k < 0 || s < 0 ? -1 : k * s;
    } else if (i == "pointer") r = 8;
    else if (i == "empty") r = 0;
    else {
        string w = gets(t, "width");
        if (!w.empty()) { L b = atol(w.c_str()); if (b % 8 == 0) r = b / 8; }
    }
    return sizes[t] = r;
}
static L offset_of(int structtype, const string &comp) {
    int f = follow(structtype);
    if (f < 0) return -1;
    L r = 0;
    vector<int> cs = N[get(f, "components")].sub;
    for (int k : cs) {
        if (gets(k, "name") == comp) return r;
        if (id(f) == "struct") {
            L s = size_of(get(k, "type"));
            if (s < 0) return -1;
            r += s;
        }
    }
    return -1;
}
static unordered_map<string, L> flat; // union tag -> size
static bool flatt(int t, L *n = 0) {
    if (t < 0 || id(t) != "union_tag") return false;
    auto it = flat.find(gets(t, "identifier"));
    if (it == flat.end()) return false;
    if (n) *n = it->second;
    return true;
}
// ---- rewriting
static int u8t, u64t, lastconst;
static int hex(L v, int t) {
    char b[40];
    snprintf(b, sizeof b, "%lX", v);
    return mk("constant", {}, {{"type", t}, {"value", leaf(b)}});
}
static int arr(L n) { 
    static unordered_map<L, int> m;
    auto it = m.find(n);
    if (it != m.end()) return it->second;
    int sz = hex(n, u64t);
    int a = mk("array", {u8t}, {{"size", sz}, {"index_type", u64t}});
    return m[n] = a;
}
static unordered_map<int, int> done_;
static int rw(int n);
static int type_of(int e) { return get(e, "type"); }
static int member(int e, const string &c, int t) { return mk("member", {e}, {{"component_name", leaf(c)}, {"type", t}}); }
static int extract(int e, L off, int t) {
    return mk("byte_extract_little_endian", {e, hex(off, u64t)}, {{"type", t}, {"bits_per_byte", leaf("8")}});
}
static int ptr(int t) { return mk("pointer", {t}, {{"width", leaf("64")}}); }
static int cast(int e, int t) { return mk("typecast", {e}, {{"type", t}}); }
// Whether e is a part of a flattened union.
static bool inflat(int e) {
    while (id(e) == "member" || id(e) == "index") {
        if (id(e) == "member" && flatt(type_of(N[e].sub[0]))) return true;
        e = N[e].sub[0];
    }
    return false;
}
// The address of e, a part of a flattened union.
static int addr(int e) {
    int t = rw(type_of(e));
    if (!inflat(e)) {
        return mk("address_of", {rw(e)}, {{"type", ptr(t)}});
    }
    L off = 0, n = 0;
    int x = e;
    while (id(x) == "member") {
        int b = N[x].sub[0];
        if (flatt(type_of(b), &n)) {
            if (!inflat(b)) {
                int el = mk("index", {member(rw(b), "b", arr(n)), hex(off, u64t)}, {{"type", u8t}});
                return cast(mk("address_of", {el}, {{"type", ptr(u8t)}}), ptr(t));
            }
        } else {
            L o = offset_of(type_of(b), gets(x, "component_name"));
            if (o < 0) die("offset");
            off += o;
        }
        x = b;
    }
    // x is an element of an array inside a flattened union
    int et = rw(type_of(x));
    int p = mk("plus", {cast(addr(N[x].sub[0]), ptr(et)), rw(N[x].sub[1])}, {{"type", ptr(et)}});
    if (x == e) return p;
    p = mk("plus", {cast(p, ptr(u8t)), hex(off, u64t)}, {{"type", ptr(u8t)}});
    return cast(p, ptr(t));
}
static int copy(int n, int type) {
    Node r = N[n];
    for (auto &p : r.named) p.second = p.first == str("type") && type >= 0 ? type : rw(p.second);
    for (auto &p : r.comment) p.second = rw(p.second);
    for (auto &s : r.sub) s = rw(s);
    const Node &o = N[n];
    if (r.sub == o.sub && r.named == o.named && r.comment == o.comment) return n;
    N.push_back(r);
    return N.size() - 1;
}
static int rw(int n) {
    auto it = done_.find(n);
    if (it != done_.end()) return it->second;
    const string i = id(n);
    int r = -1;
    L sz;
    if (i == "union_tag" && flatt(n)) {
        Node c = N[n];
        c.id = str("struct_tag");
        N.push_back(c);
        r = N.size() - 1;
    } else if (i == "member" && type_of(n) >= 0 && inflat(n)) {
        // collect the constant offset
        int e = n;
        L off = 0;
        bool ok = true;
        while (id(e) == "member") {
            int b = N[e].sub[0];
            if (flatt(type_of(b), &sz)) {
                if (!inflat(b)) { r = extract(member(rw(b), "b", arr(sz)), off, rw(type_of(n))); break; }
            } else {
                L o = offset_of(type_of(b), gets(e, "component_name"));
                if (o < 0) { ok = false; break; }
                off += o;
            }
            e = b;
        }
        if (!ok) die("no offset for " + gets(e, "component_name"));
        if (r < 0) r = extract(rw(e), off, rw(type_of(n))); // below an index
    } else if (i == "address_of" && N[n].sub.size() == 1 && inflat(N[n].sub[0])) {
        r = cast(addr(N[n].sub[0]), rw(type_of(n)));
    } else if (i == "union" && N[n].sub.size() == 1 && flatt(type_of(n), &sz)) {
        int v = N[n].sub[0];
        L k = size_of(type_of(v));
        int a;
        if (k == sz) a = extract(rw(v), 0, arr(sz));
        else {
            int z = mk("array_of", {hex(0, u8t)}, {{"type", arr(sz)}});
            a = mk("byte_update_little_endian", {z, hex(0, u64t), rw(v)}, {{"type", arr(sz)}, {"bits_per_byte", leaf("8")}});
        }
        r = mk("struct", {a}, {{"type", rw(type_of(n))}});
    } else r = copy(n, -1);
    return done_[n] = r;
}
static bool ends(const string &s, const string &e) { return s.size() >= e.size() && !s.compare(s.size() - e.size(), e.size(), e); }
static bool symbol(int e, const string &name) { return id(e) == "symbol" && gets(e, "identifier") == name; }
// The type that a pointer with this name is cast to in e.
static int cast_of(int e, const string &name) {
    if (id(e) == "typecast" && N[e].sub.size() == 1 && symbol(N[e].sub[0], name)) {
        int t = type_of(e);
        return id(t) == "pointer" ? N[t].sub[0] : -1;
    }
    for (int k : N[e].sub) { int t = cast_of(k, name); if (t >= 0) return t; }
    return -1;
}
// Gives the memory that Box::<T>::new allocates the type T.  Otherwise it is an array of
// bytes to CBMC, and a write to any part of it a write to all of it.
static int type_boxes() {
    int count = 0;
    for (auto &fn : fns)
        for (size_t k = 0; k < fn.ins.size(); k++) {
            auto &x = fn.ins[k];
            if (x.type != 16 || N[x.code].sub.size() != 3) continue;
            int lhs = N[x.code].sub[0], f = N[x.code].sub[1];
            if (id(f) != "symbol" || gets(f, "identifier").find("5alloc5boxed14box_new_uninit") == string::npos || id(lhs) != "symbol") continue;
            string v = gets(lhs, "identifier");
            int t = -1;
            for (size_t j = k + 1; j < fn.ins.size() && j < k + 6 && t < 0; j++)
                if (fn.ins[j].type == 13) t = cast_of(N[fn.ins[j].code].sub[1], v);
            sizes.clear();
            L n = t < 0 ? -1 : size_of(t);
            if (n <= 0 || (id(t) != "struct_tag" && id(t) != "struct")) continue;
            int no = mk("constant", {}, {{"type", leaf("bool")}, {"value", leaf("false")}});
            int al = mk("side_effect", {hex(n, u64t), no}, {{"statement", leaf("allocate")}, {"type", ptr(t)}});
            Node c = N[x.code];
            for (auto &p : c.named) if (S[p.first] == "statement") p.second = leaf("assign");
            // A variable of the right type for the pointer.
            Sym sy;
            for (auto &o : syms) if (S[o.name] == v) sy = o;
            sy.name = sy.base = sy.pretty = str(v + "$typed");
            sy.type = ptr(t);
            syms.push_back(sy);
            int p = mk("symbol", {}, {{"identifier", leaf(v + "$typed")}, {"type", ptr(t)}});
            c.sub = {p, al};
            N.push_back(c);
            Ins first = x;
            first.code = N.size() - 1;
            first.type = 13;
            c.sub = {lhs, cast(p, type_of(lhs))};
            N.push_back(c);
            x.code = N.size() - 1;
            x.type = 13;
            x.target = 0xffffffff;
            x.labels.clear();
            fn.ins.insert(fn.ins.begin() + k, first);
            k++;
            count++;
        }
    return count;
}
int main(int argc, char **argv) {
    if (argc < 3) die("usage");
    FILE *f = fopen(argv[1], "rb");
    if (!f) die("cannot open");
    fseek(f, 0, SEEK_END);
    in.resize(ftell(f));
    rewind(f);
    if (fread(in.data(), 1, in.size(), f) != in.size()) die("read");
    fclose(f);
    in.push_back(0);
    if (memcmp(in.data(), "\x7fGBF", 4)) die("no goto binary");
    pos = 4;
    unsigned long version = word();
    if (version != 6) die("version " + to_string(version));
    unsigned long c = word();
    for (unsigned long k = 0; k < c; k++) {
        Sym s;
        s.type = rref(); s.value = rref(); s.loc = rref();
        s.name = sref(); s.module = sref(); s.base = sref(); s.mode = sref(); s.pretty = sref();
        s.ord = word(); s.flags = word();
        symtype[s.name] = s.type;
        syms.push_back(s);
    }
    c = word();
    for (unsigned long k = 0; k < c; k++) {
        Fn fn;
        fn.name = gstr();
        unsigned long m = word();
        for (unsigned long j = 0; j < m; j++) {
            Ins x;
            x.code = rref(); x.loc = rref(); x.type = word(); x.guard = rref(); x.target = word();
            unsigned long t = word();
            while (t--) x.targets.push_back(word());
            t = word();
            while (t--) x.labels.push_back(sref());
            fn.ins.push_back(x);
        }
        fns.push_back(fn);
    }
    if (pos != in.size() - 1) die("trailing data");
    // types
    u8t = mk("unsignedbv", {}, {{"width", leaf("8")}});
    u64t = mk("unsignedbv", {}, {{"width", leaf("64")}});
    L limit = argc > 3 ? atol(argv[3]) : 4096;
    int single = 0;
    vector<pair<int, int>> structs;
    for (size_t k = 0; k < syms.size(); k++) {
        int t = syms[k].type;
        if (id(t) != "union") continue;
        int cs = get(t, "components");
        if (cs < 0 || N[cs].sub.empty()) continue;
        L n = size_of(t);
        string first = gets(N[cs].sub[0], "name");
        if (n <= 0 || n > limit || first == "uninit" || first == "value") continue;
        flat[S[syms[k].name]] = n;
        (void)single;
    }
    for (auto &s : syms) {
        auto it = flat.find(S[s.name]);
        if (it != flat.end()) {
            int comp = mk("", {}, {{"name", leaf("b")}, {"type", arr(it->second)}});
            int comps = mk("", {comp});
            Node st = N[s.type];
            Node r;
            r.id = str("struct");
            for (auto &p : st.named) if (S[p.first] != "components") r.named.push_back(p);
            r.named.push_back({str("components"), comps});
            N.push_back(r);
            s.type = N.size() - 1;
        } else s.type = rw(s.type);
        s.value = rw(s.value);
    }
    for (auto &fn : fns)
        for (auto &x : fn.ins) { x.code = rw(x.code); x.guard = rw(x.guard); }
    int typed = getenv("MC_NOTYPED") ? 0 : type_boxes();
    // write
    out = "\x7fGBF";
    wword(version);
    wword(syms.size());
    for (auto &s : syms) {
        wref(s.type); wref(s.value); wref(s.loc);
        wsref(s.name); wsref(s.module); wsref(s.base); wsref(s.mode); wsref(s.pretty);
        wword(s.ord); wword(s.flags);
    }
    wword(fns.size());
    for (auto &fn : fns) {
        wgstr(fn.name);
        wword(fn.ins.size());
        for (auto &x : fn.ins) {
            wref(x.code); wref(x.loc); wword(x.type); wref(x.guard); wword(x.target);
            wword(x.targets.size());
            for (auto t : x.targets) wword(t);
            wword(x.labels.size());
            for (auto l : x.labels) wsref(l);
        }
    }
    f = fopen(argv[2], "wb");
    if (!f || fwrite(out.data(), 1, out.size(), f) != out.size() || fclose(f)) die("write");
    printf("%zu symbols, %zu functions, %zu unions flattened, %d allocations typed\n", syms.size(), fns.size(), flat.size(), typed);
}
