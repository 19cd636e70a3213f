// C09, C10: construct() over histories of a cache directory: several constructions of one text, kinds of
// storage, intermediate results kept, deleted or lost, a crash anywhere, legal splitting of reads and writes.
#define private public          // the map of the RAM store is read to see what is left in it
#include <sdsl/ram_fs.hpp>
#undef private
#include "simos.hpp"
#include "zoo.hpp"
#include "zoo_util.hpp"
#include "naive.hpp"
#include <sdsl/config.hpp>
#include <sdsl/construct_config.hpp>
#include <sdsl/int_vector.hpp>
#include <sdsl/io.hpp>
#include <sdsl/util.hpp>

using namespace sim;
using zoo::Val;
using zoo::Kind;

namespace
{
struct Cons : World {
    bool c10;
    explicit Cons(bool c) : c10(c) { name = c ? "C10" : "C09"; }
    bool wants_dry() override { return true; }
    static int64_t pick(Rng& g, bool bytes)
    {
        for (;;) {
            int64_t k = g(1000000);
            Kind* x = kind_of(k);
            if (!x->cons || (x->name == "k2_treap" ? g(3) : x->bytetext != bytes)) continue;
            if (x->cat != 2 && g(2)) continue;
            return k;
        }
    }
    Plan gen(Rng& g) override
    {
        Plan p;
        p.cfg["storage"] = g(4);                  // ".", "/d", "/d/sub", RAM
        p.cfg["givenid"] = g(3) != 0;
        p.cfg["bytes"] = g(4) != 0;
        p.cfg["seed"] = g(1 << 20);
        p.cfg["size"] = g(150) == 0 ? g(g(4) ? 1500 : 5000) : g(6) == 0 ? g(6) : 1 + g(1ULL << (2 + g(6)));
        p.cfg["bufcap"] = g(3) ? 0 : 16 + g(1 << 10);
        p.cfg["defbuf"] = g(3) ? 1 << 14 : 8 + g(1 << 9);
        p.cfg["noiseseed"] = g(1 << 30);
        if (g(2)) { p.cfg["short"] = g(2) ? g(100) : g(900); p.cfg["eintr"] = g(2) ? 0 : g(100); }
        p.cfg["decoys"] = g(8);
        int n = 1 + (int)g(3);
        int64_t same = pick(g, p.cfg["bytes"]);
        for (int i = 0; i < n; ++i) {
            // kind, delete, representation, input place, way (0 configuration, 1 default configuration, 2 construct_im), suffix sorter
            int64_t k = g(3) ? pick(g, p.cfg["bytes"]) : same;
            p.op("con", {k, (int64_t)g(3) == 0, (int64_t)g(4), (int64_t)g(3), g(5) ? 0 : 1 + (int64_t)g(2), (int64_t)g(2)});
            if (i + 1 < n && g(2)) for (int d = 1 + (int)g(4); d; --d) p.op("drop", {(int64_t)g(16)});
            if (i + 1 < n && g(8) == 0) p.op("keep", {(int64_t)g(16)});
        }
        p.cfg["crash"] = p.get("storage") != 3 && g(3) == 0;
        p.cfg["litter"] = g(2);
        return p;
    }
    void place(Plan& p, Rng& g, const Run&) override
    {
        if (!p.get("crash") || os.trace.empty()) return;
        int64_t at = (int64_t)g(os.trace.size());
        if (g(2)) {                        // at a removal of a file
            std::vector<int64_t> u;
            for (size_t i = 0; i < os.trace.size(); ++i) if (os.trace[i] == 'u') u.push_back(i);
            if (!u.empty()) at = g.pick(u);
        }
        p.faults.push_back({"crash", at, 0});
    }

    // ---- one run
    typedef std::map<std::string, std::string> Listing;
    const Plan* p = nullptr; Run* r = nullptr;
    std::string dir, id;
    std::map<std::string, Listing> refs;           // kind -> key -> content of the intermediate file
    std::map<std::string, std::string> refbytes;
    std::map<std::string, uint64_t> refdig;
    std::map<std::string, naive::Vec> texts;
    bool recovery = false;
    static Listing listing()
    {
        Listing l;
        for (auto& f : os.files) l[f.first] = *os.content(f.first);
        for (auto& f : sdsl::ram_fs::m_map) l["RAM:" + f.first] = std::string(f.second.data(), f.second.size());
        return l;
    }
    static int rep_of(Kind* k, int64_t a)
    {
        static const int reps[] = {1, 0, 4, 'd'};
        int rep = k->bytetext ? reps[a % 2] : reps[1 + a % 3];
        if (k->name == "lcp_vlc(int)") rep = 0;
        else if (k->name.compare(0, 4, "lcp_") == 0) rep = 1;
        return rep;
    }
    const naive::Vec& text_of(Kind* k)
    {
        if (texts.count(k->name)) return texts[k->name];
        zoo::How h;
        std::string bytes;
        h.file = "x"; h.rep = 0;
        h.put = [&](const std::string&, const std::string& b) { bytes = b; };
        h.run = [](const std::function<void()>&) {};
        zoo::how = &h;
        VP v(k->build(p->get("seed"), (unsigned)p->get("size")));
        zoo::how = nullptr;
        naive::Vec t;
        std::istringstream in(bytes);
        if (k->bytetext) { sdsl::int_vector<8> x; x.load(in); t.assign(x.begin(), x.end()); }
        else { sdsl::int_vector<> x; x.load(in); t.assign(x.begin(), x.end()); }
        return texts[k->name] = t;
    }
    // the structure and the intermediate files a quiet construction in a directory of its own gives
    void reference(Kind* k)
    {
        if (refbytes.count(k->name)) return;
        const naive::Vec& t = text_of(k);
        VP im(k->build(p->get("seed"), (unsigned)p->get("size")));
        refbytes[k->name] = ser(*im);
        refdig[k->name] = im->digest(k->nq);
        if (k->name == "k2_treap") return;
        if (!c10) { std::string d = im->agrees(t); if (!d.empty()) fail("text", "%s: construct_im gives an index that disagrees with the text: %s", k->name.c_str(), d.c_str()); }
        if (k->cat != 2) return;
        Listing before = listing();
        sdsl::cache_config cfg(false, "/tmp", "ref");
        zoo::How h;
        h.file = "/tmp/refin"; h.rep = rep_of(k, 0); h.cfg = &cfg;
        h.put = [](const std::string& f, const std::string& b) { os.put(f, b); };
        h.run = [](const std::function<void()>& f) { f(); };
        zoo::how = &h;
        VP v(k->build(p->get("seed"), (unsigned)p->get("size")));
        zoo::how = nullptr;
        for (auto& e : cfg.file_map) refs[k->name][e.first] = file_bytes(e.second);
        // remove it again
        for (auto& f : listing()) if (!before.count(f.first)) { std::string n = f.first; if (n.compare(0, 4, "RAM:") == 0) sdsl::ram_fs::remove(n.substr(4)); else os.files.erase(n); }
    }
    void check_key(Kind* k, const std::string& key, const std::string& file, const naive::Arrays& a)
    {
        const naive::Vec* want = nullptr;
        if (key == sdsl::conf::KEY_TEXT || key == sdsl::conf::KEY_TEXT_INT) want = &a.text;
        else if (key == sdsl::conf::KEY_SA) want = &a.sa;
        else if (key == sdsl::conf::KEY_ISA) want = &a.isa;
        else if (key == sdsl::conf::KEY_BWT || key == sdsl::conf::KEY_BWT_INT) want = &a.bwt;
        else if (key == sdsl::conf::KEY_PSI) want = &a.psi;
        else if (key == sdsl::conf::KEY_LCP) want = &a.lcp;
        if (!want) return;
        naive::Vec got;
        bool ok = true;
        if (key == sdsl::conf::KEY_TEXT || key == sdsl::conf::KEY_BWT) { sdsl::int_vector<8> v; ok = sdsl::load_from_file(v, file); got.assign(v.begin(), v.end()); }
        else { sdsl::int_vector<> v; ok = sdsl::load_from_file(v, file); got.assign(v.begin(), v.end()); }
        if (!ok) fail("kept-unloadable", "%s: the kept file of %s cannot be loaded", k->name.c_str(), key.c_str());
        if (got != *want) fail("kept-wrong", "%s: the kept file of %s (%zu elements) is not the array of the text (%zu elements)", k->name.c_str(), key.c_str(), got.size(), want->size());
    }
    void construct(const Op& o, int no)
    {
        Kind* k = kind_of(o.arg(0));
        const bool treap = k->name == "k2_treap";
        reference(k);
        const naive::Vec& t = text_of(k);
        zoo::How h;
        h.rep = rep_of(k, o.arg(2));
        const int place = (int)(o.arg(3) % 3), way = (int)(o.arg(4) % 3);
        std::string in = place == 0 ? "/d/input" : place == 1 ? "input" : "@input";
        in += std::to_string(no);
        if (way != 2) h.file = in;
        std::unique_ptr<sdsl::cache_config> cfg;
        bool del = true;
        if (way == 0) { del = o.arg(1); cfg.reset(new sdsl::cache_config(del, dir, id)); h.cfg = cfg.get(); }
        Listing before;
        h.put = [&](const std::string& f, const std::string& b) { put_file(f, b); };
        h.run = [&](const std::function<void()>& f) {
            before = listing();
            sdsl::construct_config::byte_algo_sa = o.arg(5) ? sdsl::SE_SAIS : sdsl::LIBDIVSUFSORT;
            struct Back { ~Back() { sdsl::construct_config::byte_algo_sa = sdsl::LIBDIVSUFSORT; } } back;
            Inject i;
            f();
        };
        zoo::how = &h;
        VP v;
        std::string what;
        try { v.reset(k->build(p->get("seed"), (unsigned)p->get("size"))); }
        catch (const std::exception& e) { what = e.what(); if (what.empty()) what = "?"; }
        zoo::how = nullptr;
        sdsl::construct_config::byte_algo_sa = sdsl::LIBDIVSUFSORT;
        r->hit("kind_" + k->name);
        const char* kn = k->name.c_str();
        if (!v) fail("throws", "%s: construction %d (storage %d, way %d) throws: %s", kn, no, (int)p->get("storage"), way, what.c_str());
        uint64_t dig = v->digest(k->nq);
        r->ev("con %s way %d del %d -> %llx", kn, way, (int)del, (unsigned long long)dig);
        r->state(mix2(mix2(o.arg(0), way * 8 + del * 4 + p->get("storage")), mix2(before.size(), recovery)));
        if (!c10) {
            std::string d = treap ? "" : v->agrees(t);
            if (!d.empty()) fail("text", "%s: construction %d (storage %d, way %d) gives an index that disagrees with the text: %s", kn, no, (int)p->get("storage"), way, d.c_str());
            if (dig != refdig[k->name]) fail("answers", "%s: construction %d (storage %d, way %d) gives an index that answers differently from construct_im", kn, no, (int)p->get("storage"), way);
            if (ser(*v) != refbytes[k->name]) fail("bytes", "%s: construction %d (storage %d, way %d) gives other bytes than construct_im", kn, no, (int)p->get("storage"), way);
        } else {
            Listing after = listing();
            std::map<std::string, std::string> mine;      // registered files
            if (cfg) for (auto& e : cfg->file_map) {
                std::string n = e.second[0] == '@' ? "RAM:" + e.second : norm_path(e.second.c_str());
                mine[n] = e.first;
            }
            std::string owned = "_" + id + ".sdsl";
            for (auto& f : before) {
                bool own = way == 0 && !treap && f.first.size() > owned.size() && f.first.compare(f.first.size() - owned.size(), owned.size(), owned) == 0;
                if (!after.count(f.first)) {
                    if (own && del) continue;                 // an intermediate file of this configuration, deletion requested
                    fail("removed", "%s: construction %d removed %s", kn, no, f.first.c_str());
                }
                if (after[f.first] != f.second) {
                    if (own && recovery) continue;            // litter of the crashed run, replaced
                    fail("changed", "%s: construction %d changed %s", kn, no, f.first.c_str());
                }
            }
            naive::Vec z = t; z.push_back(0);
            std::unique_ptr<naive::Arrays> a;
            for (auto& f : after) {
                if (before.count(f.first)) continue;
                if (way != 0 || del) fail("left", "%s: construction %d left %s behind", kn, no, f.first.c_str());
                if (!mine.count(f.first)) fail("unregistered", "%s: construction %d left %s behind, which is not registered", kn, no, f.first.c_str());
            }
            if (way == 0 && !del && k->cat == 2) for (auto& m : mine) {
                if (!after.count(m.first)) fail("missing", "%s: construction %d registered %s, which does not exist", kn, no, m.first.c_str());
                if (!a) a.reset(new naive::Arrays(z));
                std::string fn = m.first.compare(0, 4, "RAM:") == 0 ? m.first.substr(4) : m.first;
                check_key(k, m.second, fn, *a);
                if (refs[k->name].count(m.second) && m.second.compare(0, 4, "csa_") == 0 && after[m.first] != refs[k->name][m.second]) fail("kept-wrong", "%s: the kept file of %s differs from the one of a quiet construction", kn, m.second.c_str());
            }
            if (way == 0 && del) for (auto& m : mine) if (after.count(m.first)) fail("left", "%s: construction %d left its registered file %s behind", kn, no, m.first.c_str());
            if (os.open_fds()) fail("fd-leak", "%s: %d descriptors left", kn, os.open_fds());
            if (os.open_maps() || os.bad_unmap) fail("map-leak", "%s: %d mappings left", kn, os.open_maps());
        }
        r->nontrivial = true;
        // the input is not needed any more
        for (const char* e : {"", ".x", ".y", ".w"}) if (there(in + e)) { if (in[0] == '@') sdsl::ram_fs::remove(in + e); else os.files.erase(norm_path((in + e).c_str())); }
    }
    std::vector<std::string> cache_files()
    {
        std::vector<std::string> l;
        std::string owned = "_" + id + ".sdsl";
        for (auto& f : listing()) if (f.first.size() > owned.size() && f.first.compare(f.first.size() - owned.size(), owned.size(), owned) == 0) l.push_back(f.first);
        return l;
    }
    static void erase(const std::string& n) { if (n.compare(0, 4, "RAM:") == 0) sdsl::ram_fs::remove(n.substr(4)); else os.files.erase(n); }
    void exec(const Plan& pl, Run& run) override
    {
        Quiet q;
        p = &pl; r = &run;
        recovery = false;
        refs.clear(); refbytes.clear(); refdig.clear(); texts.clear();
        os.reset(pl);
        static const char* dirs[] = {".", "/d", "/d/sub", "@"};
        dir = dirs[pl.get("storage") % 4];
        id = pl.get("givenid") ? "my" : "";
        if (id.empty()) id = sdsl::cache_config(true, dir).id;       // drawn once, as a program would keep its configuration
        if (pl.get("decoys") & 1) os.put("/d/sa_other.sdsl", "decoy");
        if (pl.get("decoys") & 2) os.put("./text_other.sdsl", "decoy 2");
        if (pl.get("decoys") & 4) sdsl::ram_fs::store("@/lcp_other.sdsl", {'d', 'e'});
        if (pl.get("decoys") == 7) { os.put("/d/sub/bwt", ""); sdsl::ram_fs::store("@0", {'x'}); }
        int no = 0, last = -1;
        for (auto& o : pl.ops) {
            ++no;
            if (o.name == "con") { construct(o, no); last = no - 1; }
            else if (o.name == "drop") { auto l = cache_files(); if (!l.empty()) { erase(l[o.arg(0) % l.size()]); r->hit("intermediate_dropped"); } }
            else if (o.name == "keep") { auto l = cache_files(); if (!l.empty()) { auto keep = l[o.arg(0) % l.size()]; for (auto& f : l) if (f != keep) { erase(f); r->hit("intermediate_dropped"); } } }
        }
        if (!os.images.empty() && last >= 0) {
            // the process died at the crash point; another one finds the disk and constructs again
            Image im = os.images[0].second;
            while (!sdsl::ram_fs::m_map.empty()) sdsl::ram_fs::m_map.erase(sdsl::ram_fs::m_map.begin());
            std::string owned = "_" + id + ".sdsl";
            std::set<std::string> complete, known;
            for (auto& kr : refs) for (auto& e : kr.second) { known.insert(e.first); complete.insert(e.first + "\n" + e.second); }
            for (auto it = im.begin(); it != im.end();) {
                std::string base = it->first.substr(it->first.rfind('/') + 1);
                bool own = base.size() > owned.size() && base.compare(base.size() - owned.size(), owned.size(), owned) == 0, drop = false;
                if (own) {
                    std::string key = base.substr(0, base.size() - owned.size());
                    if (known.count(key)) drop = !complete.count(key + "\n" + it->second);
                    else drop = !pl.get("litter");
                    if (!drop) r->hit(known.count(key) ? "recovered_with_complete_file" : "recovered_with_litter");
                } else if (base.compare(0, 5, "input") == 0) drop = true;
                if (drop) it = im.erase(it); else ++it;
            }
            os.restore(im);
            recovery = true;
            r->hit("recovery");
            Op o = pl.ops[last];
            o.a.resize(6);
            o.a[4] = 0;
            construct(o, 100);
        }
    }
};
struct C09 : Cons { C09() : Cons(false) {} };
struct C10 : Cons { C10() : Cons(true) {} };
AddWorld<C09> a09;
AddWorld<C10> a10;
}
