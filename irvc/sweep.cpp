// SAT sweeping of a combinational circuit under constraints.
//
// Input (text, stdin):
//   N                      number of nodes (node 0 is constant false)
//   kind a b c  (N-1 lines, kind 1 input, 2 and, 3 xor, 4 mux(c ? a : b)); a, b, c literals 2*node+neg
//   NC lit...              constraint literals (assumed true, never simplified)
//   NG lit...              goal literals: is (constraints and all goals) satisfiable?
//   P                      number of initial patterns, followed by one line per input node: node hex words
//   limit final            conflict limits (per candidate pair, final call; 0 = no final call)
// Output: "unsat" | "sat" followed by input values | "unknown", and with argv[1] the reduced problem as DIMACS
//   preceded by comment lines mapping inputs.
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
using namespace std;
typedef uint32_t u32;
typedef uint64_t u64;

static double now() {
    return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count();
}
static u64 rs = 88172645463325252ull;
static u64 rnd() {
    rs ^= rs << 13;
    rs ^= rs >> 7;
    rs ^= rs << 17;
    return rs;
}

// ------------------------------------------------------------------ solver
struct Clause {
    u32 sz;
    u32 lbd : 30;
    u32 learnt : 1;
    u32 dead : 1;
    float act;
    u32 l[1];
};
struct Watch {
    Clause *c;
    u32 blk;
};
struct Solver {
    vector<vector<Watch>> w;
    vector<int8_t> val;      // per literal: 1 true, -1 false, 0 undef  (index literal)
    vector<int> level;
    vector<Clause *> reason;
    vector<double> act;
    vector<char> phase, seen, indec;
    vector<u32> trail, lim;
    size_t qh = 0;
    vector<Clause *> learnts, clauses;
    vector<int> heap, hpos;
    double inc = 1;
    bool ok = true;
    u64 conflicts = 0, props = 0;
    u64 maxlearn = 4000;
    vector<u32> dec;         // decision variables of the current query

    int newVar() {
        int v = level.size();
        level.push_back(0);
        reason.push_back(nullptr);
        act.push_back(0);
        phase.push_back(rnd() & 1);
        seen.push_back(0);
        indec.push_back(0);
        hpos.push_back(-1);
        val.push_back(0);
        val.push_back(0);
        w.emplace_back();
        w.emplace_back();
        return v;
    }
    // heap
    void up(int i) {
        int v = heap[i];
        while (i) {
            int p = (i - 1) >> 1;
            if (act[heap[p]] >= act[v]) break;
            heap[i] = heap[p];
            hpos[heap[i]] = i;
            i = p;
        }
        heap[i] = v;
        hpos[v] = i;
    }
    void down(int i) {
        int v = heap[i], n = heap.size();
        while (2 * i + 1 < n) {
            int c = 2 * i + 1;
            if (c + 1 < n && act[heap[c + 1]] > act[heap[c]]) c++;
            if (act[heap[c]] <= act[v]) break;
            heap[i] = heap[c];
            hpos[heap[i]] = i;
            i = c;
        }
        heap[i] = v;
        hpos[v] = i;
    }
    void ins(int v) {
        if (hpos[v] >= 0 || !indec[v]) return;
        hpos[v] = heap.size();
        heap.push_back(v);
        up(hpos[v]);
    }
    int pop() {
        int v = heap[0];
        hpos[v] = -1;
        int l = heap.back();
        heap.pop_back();
        if (!heap.empty()) {
            heap[0] = l;
            hpos[l] = 0;
            down(0);
        }
        return v;
    }
    void bump(int v) {
        if ((act[v] += inc) > 1e100) {
            for (auto &a : act) a *= 1e-100;
            inc *= 1e-100;
        }
        if (hpos[v] >= 0) up(hpos[v]);
    }
    void enq(u32 l, Clause *r) {
        val[l] = 1;
        val[l ^ 1] = -1;
        level[l >> 1] = lim.size();
        reason[l >> 1] = r;
        trail.push_back(l);
    }
    Clause *mk(const vector<u32> &ls, bool learnt) {
        Clause *c = (Clause *)malloc(sizeof(Clause) + 4 * ls.size());
        c->sz = ls.size();
        c->learnt = learnt;
        c->dead = 0;
        c->lbd = 0;
        c->act = 0;
        memcpy(c->l, ls.data(), 4 * ls.size());
        return c;
    }
    void attach(Clause *c) {
        w[c->l[0] ^ 1].push_back({c, c->l[1]});
        w[c->l[1] ^ 1].push_back({c, c->l[0]});
    }
    // only at level 0
    void add(vector<u32> ls) {
        if (!ok) return;
        sort(ls.begin(), ls.end());
        vector<u32> o;
        for (u32 l : ls) {
            if (val[l] == 1) return;
            if (val[l] == -1) continue;
            if (!o.empty() && o.back() == l) continue;
            if (!o.empty() && o.back() == (l ^ 1)) return;
            o.push_back(l);
        }
        if (o.empty()) {
            ok = false;
            return;
        }
        if (o.size() == 1) {
            enq(o[0], nullptr);
            if (propagate()) ok = false;
            return;
        }
        Clause *c = mk(o, false);
        clauses.push_back(c);
        attach(c);
    }
    Clause *propagate() {
        while (qh < trail.size()) {
            u32 p = trail[qh++];
            props++;
            auto &ws = w[p];
            size_t i = 0, j = 0, n = ws.size();
            while (i < n) {
                Watch x = ws[i++];
                if (val[x.blk] == 1) {
                    ws[j++] = x;
                    continue;
                }
                Clause *c = x.c;
                if (c->dead) continue;
                u32 np = p ^ 1;
                if (c->l[0] == np) swap(c->l[0], c->l[1]);
                u32 f = c->l[0];
                if (f != x.blk && val[f] == 1) {
                    ws[j++] = {c, f};
                    continue;
                }
                bool found = false;
                for (u32 k = 2; k < c->sz; k++)
                    if (val[c->l[k]] != -1) {
                        swap(c->l[1], c->l[k]);
                        w[c->l[1] ^ 1].push_back({c, f});
                        found = true;
                        break;
                    }
                if (found) continue;
                ws[j++] = {c, f};
                if (val[f] == -1) {
                    while (i < n) ws[j++] = ws[i++];
                    ws.resize(j);
                    qh = trail.size();
                    return c;
                }
                enq(f, c);
            }
            ws.resize(j);
        }
        return nullptr;
    }
    void cancel(u32 lv) {
        if (lim.size() <= lv) return;
        for (size_t i = trail.size(); i-- > lim[lv];) {
            u32 l = trail[i];
            val[l] = val[l ^ 1] = 0;
            phase[l >> 1] = !(l & 1);
            reason[l >> 1] = nullptr;
            ins(l >> 1);
        }
        trail.resize(lim[lv]);
        lim.resize(lv);
        qh = trail.size();
    }
    vector<u32> lrn, clr;
    u32 analyze(Clause *c, u32 &bt) {
        lrn.assign(1, 0);
        clr.clear();
        int cnt = 0;
        size_t idx = trail.size();
        u32 p = ~0u;
        do {
            if (c->learnt) c->act += 1;
            for (u32 k = (p == ~0u ? 0 : 1); k < c->sz; k++) {
                u32 q = c->l[k];
                int v = q >> 1;
                if (!seen[v] && level[v] > 0) {
                    seen[v] = 1;
                    clr.push_back(v);
                    bump(v);
                    if (level[v] >= (int)lim.size())
                        cnt++;
                    else
                        lrn.push_back(q);
                }
            }
            while (!seen[trail[--idx] >> 1]) {
            }
            p = trail[idx];
            c = reason[p >> 1];
            // reason clause has p at position 0 or 1; normalise
            if (c && c->l[0] != p) swap_first(c, p);
            seen[p >> 1] = 0;
            cnt--;
        } while (cnt > 0);
        lrn[0] = p ^ 1;
        // simple minimisation
        size_t j = 1;
        for (size_t i = 1; i < lrn.size(); i++) {
            Clause *r = reason[lrn[i] >> 1];
            bool red = r != nullptr;
            if (r)
                for (u32 k = 0; k < r->sz; k++) {
                    u32 q = r->l[k];
                    if ((q >> 1) != (lrn[i] >> 1) && !seen[q >> 1] && level[q >> 1] > 0) {
                        red = false;
                        break;
                    }
                }
            if (!red) lrn[j++] = lrn[i];
        }
        lrn.resize(j);
        for (u32 v : clr) seen[v] = 0;
        bt = 0;
        if (lrn.size() > 1) {
            size_t m = 1;
            for (size_t i = 2; i < lrn.size(); i++)
                if (level[lrn[i] >> 1] > level[lrn[m] >> 1]) m = i;
            swap(lrn[1], lrn[m]);
            bt = level[lrn[1] >> 1];
        }
        return 0;
    }
    void swap_first(Clause *c, u32 p) {
        // implied literal must be first among the two watches
        if (c->l[1] == p) swap(c->l[0], c->l[1]);
    }
    void reduce() {
        sort(learnts.begin(), learnts.end(), [](Clause *a, Clause *b) {
            if ((a->lbd <= 3) != (b->lbd <= 3)) return a->lbd <= 3;
            return a->act > b->act;
        });
        size_t keep = learnts.size() / 2, j = 0;
        for (size_t i = 0; i < learnts.size(); i++) {
            Clause *c = learnts[i];
            bool locked = val[c->l[0]] == 1 && reason[c->l[0] >> 1] == c;
            if (i < keep || locked || c->sz == 2) {
                c->act *= 0.5f;
                learnts[j++] = c;
            } else
                c->dead = 1, graveyard.push_back(c);
        }
        learnts.resize(j);
        for (auto &ws : w) {
            size_t k = 0;
            for (size_t i = 0; i < ws.size(); i++)
                if (!ws[i].c->dead) ws[k++] = ws[i];
            ws.resize(k);
        }
        for (Clause *c : graveyard) free(c);
        graveyard.clear();
    }
    vector<Clause *> graveyard;
    static double luby(double y, int x) {
        int size, seq;
        for (size = 1, seq = 0; size < x + 1; seq++, size = 2 * size + 1) {
        }
        while (size - 1 != x) {
            size = (size - 1) >> 1;
            seq--;
            x = x % size;
        }
        double r = 1;
        while (seq--) r *= y;
        return r;
    }
    // 1 sat, 0 unsat, -1 unknown.  Leaves the assignment in place when sat (call cancel(0)).
    int solve(const vector<u32> &asm_, u64 limit, double deadline) {
        if (!ok) return 0;
        cancel(0);
        heap.clear();
        for (auto &h : hpos) h = -1;
        for (u32 v : dec)
            if (!val[2 * v]) {
                hpos[v] = heap.size();
                heap.push_back(v);
            }
        for (int i = (int)heap.size() / 2; i-- > 0;) down(i);
        u64 c0 = conflicts;
        int it = 0;
        u64 nextr = conflicts + 100;
        vector<int> lv;
        for (;;) {
            Clause *cf = propagate();
            if (cf) {
                conflicts++;
                if (lim.empty()) {
                    ok = false;
                    return 0;
                }
                u32 bt;
                analyze(cf, bt);
                // conflict below assumptions is handled by re-asserting them
                cancel(bt);
                if (lrn.size() == 1)
                    enq(lrn[0], nullptr);
                else {
                    Clause *c = mk(lrn, true);
                    // lbd
                    static vector<u32> st;
                    static u32 stamp = 0;
                    stamp++;
                    u32 lbd = 0;
                    for (u32 l : lrn) {
                        u32 L = level[l >> 1];
                        if (L >= st.size()) st.resize(L + 1, 0);
                        if (st[L] != stamp) st[L] = stamp, lbd++;
                    }
                    c->lbd = lbd;
                    learnts.push_back(c);
                    attach(c);
                    enq(lrn[0], c);
                }
                inc *= 1 / 0.95;
                if (conflicts - c0 > limit || ((conflicts & 255) == 0 && now() > deadline)) {
                    cancel(0);
                    return -1;
                }
                continue;
            }
            if (conflicts >= nextr) {
                nextr = conflicts + (u64)(luby(2, it++) * 100);
                cancel(0);
                if (learnts.size() > maxlearn + trail.size()) reduce(), maxlearn += 200;
                continue;
            }
            u32 next = ~0u;
            while (lim.size() < asm_.size()) {
                u32 p = asm_[lim.size()];
                if (val[p] == 1)
                    lim.push_back(trail.size());
                else if (val[p] == -1) {
                    cancel(0);
                    return 0;
                } else {
                    next = p;
                    break;
                }
            }
            if (next == ~0u) {
                while (!heap.empty()) {
                    int v = pop();
                    if (!val[2 * v]) {
                        next = 2 * v + !phase[v];
                        break;
                    }
                }
                if (next == ~0u) return 1;
            }
            lim.push_back(trail.size());
            enq(next, nullptr);
        }
    }
};

// ------------------------------------------------------------------ reduced graph
struct G2 {
    vector<u32> kind, a, b, c;
    unordered_map<u64, vector<u32>> h;
    vector<vector<u64>> sim;   // sim[word][node]
    vector<int> var;           // solver variable or -1
    u32 node(u32 k, u32 x, u32 y, u32 z) {
        kind.push_back(k);
        a.push_back(x);
        b.push_back(y);
        c.push_back(z);
        var.push_back(-1);
        return kind.size() - 1;
    }
    u32 hashed(u32 k, u32 x, u32 y, u32 z) {
        u64 key = (((u64)x * 0x9E3779B97F4A7C15ull) ^ ((u64)y * 0xC2B2AE3D27D4EB4Full) ^ ((u64)z * 0x165667B19E3779F9ull)) + k;
        auto &v = h[key];
        for (u32 n : v)
            if (kind[n] == k && a[n] == x && b[n] == y && c[n] == z) return 2 * n;
        u32 n = node(k, x, y, z);
        v.push_back(n);
        return 2 * n;
    }
    u32 AND(u32 x, u32 y) {
        if (x > y) swap(x, y);
        if (x == 0) return 0;
        if (x == 1) return y;
        if (x == y) return x;
        if ((x ^ 1) == y) return 0;
        for (int t = 0; t < 2; t++) {
            u32 p = t ? y : x, q = t ? x : y;
            u32 n = p >> 1;
            if (kind[n] == 2) {
                if (!(p & 1)) {
                    if (a[n] == q || b[n] == q) return p;
                    if ((a[n] ^ 1) == q || (b[n] ^ 1) == q) return 0;
                } else {
                    if ((a[n] ^ 1) == q || (b[n] ^ 1) == q) return q;
                    if (a[n] == q) return AND(q, b[n] ^ 1);
                    if (b[n] == q) return AND(q, a[n] ^ 1);
                }
            }
        }
        return hashed(2, x, y, 0);
    }
    u32 OR(u32 x, u32 y) { return AND(x ^ 1, y ^ 1) ^ 1; }
    u32 XOR(u32 x, u32 y) {
        u32 s = (x ^ y) & 1;
        x &= ~1u;
        y &= ~1u;
        if (x > y) swap(x, y);
        if (x == 0) return y ^ s;
        if (x == y) return s;
        for (int t = 0; t < 2; t++) {
            u32 p = t ? y : x, q = t ? x : y;
            u32 n = p >> 1;
            if (kind[n] == 3) {
                if (a[n] == q) return b[n] ^ s;
                if (b[n] == q) return a[n] ^ s;
            }
        }
        return hashed(3, x, y, 0) ^ s;
    }
    u32 MUX(u32 z, u32 x, u32 y) {   // z ? x : y
        if (z == 1) return x;
        if (z == 0) return y;
        if (x == y) return x;
        if (z & 1) {
            z ^= 1;
            swap(x, y);
        }
        if (x < 2) return x ? OR(z, y) : AND(z ^ 1, y);
        if (y < 2) return y ? OR(z ^ 1, x) : AND(z, x);
        if ((x ^ 1) == y) return XOR(z, y);
        if (x == z) return OR(z, y);
        if (x == (z ^ 1)) return AND(z ^ 1, y);
        if (y == z) return AND(z, x);
        if (y == (z ^ 1)) return OR(z ^ 1, x);
        u32 s = 0;
        if (x & 1) {
            x ^= 1;
            y ^= 1;
            s = 1;
        }
        return hashed(4, x, y, z) ^ s;
    }
};

static G2 g;
static Solver S;
static vector<u32> cons;       // constraint literals in g
static vector<char> mark;
static vector<u32> conscone;

static void cone(vector<u32> roots, vector<u32> &out) {
    vector<u32> st;
    for (u32 r : roots)
        if (!mark[r]) mark[r] = 1, st.push_back(r);
    while (!st.empty()) {
        u32 n = st.back();
        st.pop_back();
        out.push_back(n);
        u32 k = g.kind[n];
        if (k < 2) continue;
        u32 f[3] = {g.a[n] >> 1, g.b[n] >> 1, g.c[n] >> 1};
        for (u32 i = 0; i < (k == 4 ? 3u : 2u); i++)
            if (!mark[f[i]]) mark[f[i]] = 1, st.push_back(f[i]);
    }
}
static u32 L(u32 l) { return 2 * g.var[l >> 1] + (l & 1); }
static void encode(u32 n) {
    if (g.var[n] >= 0) return;
    g.var[n] = S.newVar();
}
static void clauses(u32 n) {
    u32 o = 2 * g.var[n], k = g.kind[n];
    if (k == 0) {
        S.add({o ^ 1});
        return;
    }
    if (k == 1) return;
    u32 x = L(g.a[n]), y = L(g.b[n]);
    if (k == 2) {
        S.add({o ^ 1, x});
        S.add({o ^ 1, y});
        S.add({o, x ^ 1, y ^ 1});
    } else if (k == 3) {
        S.add({o ^ 1, x, y});
        S.add({o ^ 1, x ^ 1, y ^ 1});
        S.add({o, x ^ 1, y});
        S.add({o, x, y ^ 1});
    } else {
        u32 z = L(g.c[n]);
        S.add({o ^ 1, z ^ 1, x});
        S.add({o, z ^ 1, x ^ 1});
        S.add({o ^ 1, z, y});
        S.add({o, z, y ^ 1});
        S.add({o ^ 1, x, y});
        S.add({o, x ^ 1, y ^ 1});
    }
}
static void load(const vector<u32> &ns) {
    vector<u32> fresh;
    for (u32 n : ns)
        if (g.var[n] < 0) encode(n), fresh.push_back(n);
    S.cancel(0);
    for (u32 n : fresh) clauses(n);
}
static vector<u32> lastcone;
static void focus(vector<u32> roots) {
    for (u32 v : S.dec) S.indec[v] = 0;
    S.dec.clear();
    lastcone.clear();
    for (u32 r : roots) (void)r;
    vector<u32> all = roots;
    for (u32 c : cons) all.push_back(c >> 1);
    cone(all, lastcone);
    for (u32 n : lastcone) mark[n] = 0;
    load(lastcone);
    for (u32 n : lastcone) {
        S.dec.push_back(g.var[n]);
        S.indec[g.var[n]] = 1;
    }
}

static vector<u32> inputs;          // original input nodes
static vector<u32> in2;             // their g nodes
static size_t words = 0, committed = 0;
static int pend = 0;                // cex in the last word
static double deadline;

static void simnode(u32 n, size_t w) {
    auto &s = g.sim[w];
    u32 k = g.kind[n];
    auto V = [&](u32 l) { return s[l >> 1] ^ (l & 1 ? ~0ull : 0ull); };
    if (k == 2)
        s[n] = V(g.a[n]) & V(g.b[n]);
    else if (k == 3)
        s[n] = V(g.a[n]) ^ V(g.b[n]);
    else if (k == 4) {
        u64 z = V(g.c[n]);
        s[n] = (z & V(g.a[n])) | (~z & V(g.b[n]));
    }
}
static void simall(size_t w) {
    for (u32 n = 0; n < g.kind.size(); n++)
        if (g.kind[n] >= 2) simnode(n, w);
}
static unordered_map<u64, vector<u32>> cls;
static vector<char> isrep;
static u64 key(u32 n) {
    u64 fl = g.sim[0][n] & 1 ? ~0ull : 0ull;
    u64 h = 1469598103934665603ull;
    for (size_t i = 0; i < committed; i++) {
        h ^= g.sim[i][n] ^ fl;
        h *= 1099511628211ull;
        h ^= h >> 29;
    }
    return h;
}
static void rebuild() {
    committed = words;
    cls.clear();
    for (u32 n = 0; n < g.kind.size(); n++)
        if (isrep[n]) cls[key(n)].push_back(n);
}
static void addpattern_from_model() {
    // start a new word when the last is full
    if (pend == 0 || pend == 64) {
        if (pend == 64) rebuild();
        g.sim.emplace_back(g.kind.size(), 0);
        words++;
        pend = 0;
        // initialise the word with copies of this model so that every bit satisfies the constraints
        for (u32 n : in2) {
            int v = g.var[n];
            bool x = v >= 0 && S.val[2 * v] == 1;
            g.sim[words - 1][n] = x ? ~0ull : 0;
        }
        pend = 1;
        simall(words - 1);
        return;
    }
    for (u32 n : in2) {
        int v = g.var[n];
        bool x = v >= 0 && S.val[2 * v] == 1;
        u64 m = ~0ull << pend;
        g.sim[words - 1][n] = (g.sim[words - 1][n] & ~m) | (x ? m : 0);
    }
    pend++;
    simall(words - 1);
}

int main(int argc, char **argv) {
    double t0 = now();
    u32 N;
    if (scanf("%u", &N) != 1) return 2;
    vector<u32> K(N, 0), A(N, 0), B(N, 0), C(N, 0);
    for (u32 i = 1; i < N; i++)
        if (scanf("%u %u %u %u", &K[i], &A[i], &B[i], &C[i]) != 4) return 2;
    auto rdl = [&]() {
        u32 n;
        vector<u32> v;
        if (scanf("%u", &n) != 1) exit(2);
        v.resize(n);
        for (auto &x : v)
            if (scanf("%u", &x) != 1) exit(2);
        return v;
    };
    vector<u32> cl = rdl(), gl = rdl();
    u32 P;
    if (scanf("%u", &P) != 1) return 2;
    u32 PW = (P + 63) / 64;
    // patterns per input: PW hex words
    unordered_map<u32, vector<u64>> pat;
    u32 NI;
    if (scanf("%u", &NI) != 1) return 2;
    for (u32 i = 0; i < NI; i++) {
        u32 n;
        if (scanf("%u", &n) != 1) return 2;
        auto &v = pat[n];
        v.resize(PW);
        for (auto &x : v)
            if (scanf("%lx", &x) != 1) return 2;
    }
    u64 limit, final;
    double tmax;
    if (scanf("%lu %lu %lf", &limit, &final, &tmax) != 3) return 2;
    deadline = t0 + tmax;

    // cone of influence
    vector<char> need(N, 0), ncons(N, 0);
    for (int t = 0; t < 2; t++) {
        vector<u32> st;
        for (u32 l : t ? gl : cl) st.push_back(l >> 1);
        while (!st.empty()) {
            u32 n = st.back();
            st.pop_back();
            if (t ? need[n] : ncons[n]) continue;
            (t ? need[n] : ncons[n]) = 1;
            if (K[n] >= 2) {
                st.push_back(A[n] >> 1);
                st.push_back(B[n] >> 1);
                if (K[n] == 4) st.push_back(C[n] >> 1);
            }
        }
    }
    vector<u32> map(N, ~0u);
    g.node(0, 0, 0, 0);
    map[0] = 0;
    auto M = [&](u32 l) { return map[l >> 1] ^ (l & 1); };
    auto build = [&](u32 n) -> u32 {
        if (K[n] == 1) {
            u32 m = g.node(1, 0, 0, 0);
            inputs.push_back(n);
            in2.push_back(m);
            return 2 * m;
        }
        if (K[n] == 2) return g.AND(M(A[n]), M(B[n]));
        if (K[n] == 3) return g.XOR(M(A[n]), M(B[n]));
        return g.MUX(M(C[n]), M(A[n]), M(B[n]));
    };
    // all inputs and the constraint cone first, structurally only
    for (u32 n = 1; n < N; n++)
        if ((need[n] || ncons[n]) && K[n] == 1) map[n] = build(n);
    for (u32 n = 1; n < N; n++)
        if (ncons[n] && K[n] != 1) map[n] = build(n);
    bool trivially = false;
    for (u32 l : cl) {
        u32 x = M(l);
        if (x == 0) trivially = true;
        if (x > 1) cons.push_back(x);
    }
    if (trivially) {
        printf("unsat\nstat constraint false\n");
        return 0;
    }
    size_t cn = g.kind.size();
    mark.assign(cn, 0);
    isrep.assign(cn, 1);
    // constraints into the solver
    {
        vector<u32> r;
        for (u32 c : cons) r.push_back(c >> 1);
        focus(r);
        if (g.var[0] < 0) load({0});
        for (u32 c : cons) S.add({L(c)});
    }
    if (!S.ok) {
        printf("unsat\nstat constraints propagate\n");
        return 0;
    }
    // patterns satisfying the constraints
    vector<vector<char>> good;
    {
        vector<u64> tmp;
        vector<pair<u32, u32>> sel;
        G2 &G = g;
        for (u32 wd = 0; wd < PW; wd++) {
            G.sim.assign(1, vector<u64>(cn, 0));
            for (size_t i = 0; i < inputs.size(); i++) {
                auto it = pat.find(inputs[i]);
                G.sim[0][in2[i]] = it == pat.end() ? rnd() : it->second[wd];
                if (it == pat.end()) pat[inputs[i]].resize(PW), pat[inputs[i]][wd] = G.sim[0][in2[i]];
                else it->second[wd] = G.sim[0][in2[i]];
            }
            for (u32 n = 0; n < cn; n++)
                if (G.kind[n] >= 2) simnode(n, 0);
            u64 ok = ~0ull;
            for (u32 c : cons) ok &= G.sim[0][c >> 1] ^ (c & 1 ? ~0ull : 0);
            if (wd == PW - 1 && P % 64) ok &= (1ull << (P % 64)) - 1;
            for (u32 k = 0; k < 64; k++)
                if (ok >> k & 1) sel.push_back({wd, k});
        }
        G.sim.clear();
        size_t want = min<size_t>(sel.size(), 2048);
        words = (want + 63) / 64;
        for (size_t w = 0; w < words; w++) {
            G.sim.emplace_back(cn, 0);
            for (size_t i = 0; i < in2.size(); i++) {
                u64 x = 0;
                auto &pv = pat[inputs[i]];
                for (u32 k = 0; k < 64; k++) {
                    auto &s = sel[(w * 64 + k) % sel.size()];
                    x |= (pv[s.first] >> s.second & 1) << k;
                }
                G.sim[w][in2[i]] = x;
            }
            simall(w);
        }
    }
    size_t npat = words * 64;
    if (words < 4) {
        // diversify with models
        for (int k = 0; k < 192 && now() < deadline; k++) {
            vector<u32> r;
            for (u32 c : cons) r.push_back(c >> 1);
            for (u32 n : in2) r.push_back(n);
            focus(r);
            for (u32 v : S.dec) S.phase[v] = rnd() & 1, S.act[v] = (rnd() & 0xffff) * 1e-6 * S.inc;
            int st = S.solve({}, 20000, deadline);
            if (st == 0) {
                printf("unsat\nstat constraints unsat\n");
                return 0;
            }
            if (st == 1) addpattern_from_model(), npat++;
            S.cancel(0);
        }
    }
    if (words == 0) {
        g.sim.emplace_back(cn, 0);
        words = 1;
    }
    rebuild();
    u64 nmerge = 0, nq = 0, nsat = 0, nlim = 0, nstr = 0;
    for (u32 n = 1; n < N; n++) {
        if (!need[n] || map[n] != ~0u) continue;
        size_t before = g.kind.size();
        u32 l = build(n);
        for (u32 m = before; m < g.kind.size(); m++) {
            for (size_t w = 0; w < words; w++) g.sim[w].push_back(0);
            mark.push_back(0);
            isrep.push_back(0);
            for (size_t w = 0; w < words; w++) simnode(m, w);
        }
        if (g.kind.size() == before) {
            map[n] = l;
            nstr++;
            continue;
        }
        u32 m = l >> 1;
        // sub-nodes created by rewriting become representatives without queries
        for (u32 x = before; x < g.kind.size(); x++)
            if (x != m) isrep[x] = 1, cls[key(x)].push_back(x);
        u32 res = 2 * m;
        int tries = 0;
        u32 skip = ~0u;
        bool again = true;
        while (again && now() < deadline) {
            again = false;
            auto it = cls.find(key(m));
            if (it == cls.end()) break;
            for (u32 r : it->second) {
                if (r == m || r == skip) continue;
                u64 df = 0;
                u64 cpl = (g.sim[0][m] ^ g.sim[0][r]) & 1 ? ~0ull : 0;
                for (size_t w = 0; w < words && !df; w++) df |= g.sim[w][m] ^ g.sim[w][r] ^ cpl;
                if (df) continue;
                // candidate: m == r ^ cpl
                nq++;
                focus({m, r});
                int st = 0;
                u32 lm = L(2 * m), lr = L(2 * r) ^ (cpl ? 1 : 0);
                if (r == 0) {
                    // constant
                    st = S.solve({cpl ? lm ^ 1 : lm}, limit, deadline);
                } else {
                    st = S.solve({lm, lr ^ 1}, limit, deadline);
                    if (st == 0) st = S.solve({lm ^ 1, lr}, limit, deadline);
                }
                if (st == 0) {
                    res = 2 * r + (cpl ? 1 : 0);
                    nmerge++;
                    S.cancel(0);
                    S.add({lm, lr ^ 1});
                    S.add({lm ^ 1, lr});
                } else if (st == 1) {
                    nsat++;
                    addpattern_from_model();
                    S.cancel(0);
                    if (++tries < 50) again = true;
                } else {
                    nlim++;
                    skip = r;
                    if (++tries < 3) again = true;
                }
                break;
            }
        }
        if (res == 2 * m) {
            isrep[m] = 1;
            cls[key(m)].push_back(m);
        }
        map[n] = res ^ (l & 1);
    }
    vector<u32> goals;
    bool f = false;
    for (u32 l : gl) {
        u32 x = M(l);
        if (x == 0) f = true;
        if (x > 1) goals.push_back(x);
    }
    fprintf(stderr, "nodes %zu merged %lu structural %lu queries %lu refuted %lu limited %lu patterns %zu conflicts %lu %.1fs\n", g.kind.size(), nmerge, nstr, nq, nsat, nlim, npat, S.conflicts, now() - t0);
    if (f) {
        printf("unsat\n");
        return 0;
    }
    vector<u32> r;
    for (u32 x : goals) r.push_back(x >> 1);
    if (final) {
        for (u32 n : in2) (void)n;
        focus(r);
        vector<u32> as;
        for (u32 x : goals) as.push_back(L(x));
        int st = S.solve(as, final, deadline);
        if (st == 0) {
            printf("unsat\n");
            return 0;
        }
        if (st == 1) {
            printf("sat\n");
            for (size_t i = 0; i < inputs.size(); i++) {
                int v = g.var[in2[i]];
                if (v >= 0 && S.val[2 * v] == 1) printf("%u ", inputs[i]);
            }
            printf("\n");
            return 0;
        }
    }
    printf("unknown\n");
    if (argc > 1) {
        FILE *o = fopen(argv[1], "w");
        vector<u32> cn2;
        for (u32 c : cons) r.push_back(c >> 1);
        cone(r, cn2);
        sort(cn2.begin(), cn2.end());
        unordered_map<u32, int> id;
        int nv = 0;
        for (u32 n : cn2) id[n] = ++nv;
        auto lit = [&](u32 l) { return l & 1 ? -id[l >> 1] : id[l >> 1]; };
        string out;
        long nc = 0;
        char buf[256];
        auto E = [&](initializer_list<int> ls) {
            for (int x : ls) {
                snprintf(buf, sizeof buf, "%d ", x);
                out += buf;
            }
            out += "0\n";
            nc++;
        };
        for (u32 n : cn2) {
            u32 k = g.kind[n];
            int o_ = id[n];
            if (k == 0)
                E({-o_});
            else if (k >= 2) {
                int x = lit(g.a[n]), y = lit(g.b[n]);
                if (k == 2)
                    E({-o_, x}), E({-o_, y}), E({o_, -x, -y});
                else if (k == 3)
                    E({-o_, x, y}), E({-o_, -x, -y}), E({o_, -x, y}), E({o_, x, -y});
                else {
                    int z = lit(g.c[n]);
                    E({-o_, -z, x}), E({o_, -z, -x}), E({-o_, z, y}), E({o_, z, -y}), E({-o_, x, y}), E({o_, -x, -y});
                }
            }
        }
        for (u32 c : cons) E({lit(c)});
        for (u32 c : goals) E({lit(c)});
        for (size_t i = 0; i < inputs.size(); i++)
            if (id.count(in2[i])) fprintf(o, "c input %u %d\n", inputs[i], id[in2[i]]);
        fprintf(o, "p cnf %d %ld\n%s", nv, nc, out.c_str());
        fclose(o);
    }
    return 0;
}
