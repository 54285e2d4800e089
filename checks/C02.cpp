// C02: documents survive write, load and format conversion.
#include "bridge.hpp"
using namespace doc; using namespace br;
PBT_MAIN("C02", "random documents (1-200 nodes, nesting to 6 or special wide/deep shapes, all scalar kinds) built through the API or taken from an "
         "independent encoder, sent through chains of 1-6 formats via memory or streams; non-trivial: at least 4 nodes and a nested scope, or a chain of 2+ formats")

static void compare(Case& c, const Doc& got, const Doc& want, bool txt, const std::string& where, const Bytes& bytes)
{
    std::string why;
    bool ok = txt ? text_equal(got, want, &why) : equal(norm(got), norm(want), &why);
    CHECK(c, ok, where << ": " << why << "\nexpected " << show(want) << "\ngot      " << show(got) << "\nbytes " << quote(bytes, 600));
}

PBT_TEST(build_write_load, 3000, 60000)
{
    Gen g(c);
    auto d = g.any();
    c.nontrivial(nodes(d) >= 4 && depth(d) >= 2);
    c.note("document ", show(d, 500));
    Srl::Tree t; make(t, d, &c);
    compare(c, dump(t.root()), d, false, "document as built", "");
    for(Fmt f : { JC, JS, MP, SR }) {
        auto b = write(t, f, c.flip());
        compare(c, dump(t.root()), d, false, "document after writing it", b);
        Doc ind; try { ind = decode(f, b); } catch(const Bad& e) { CHECK(c, false, name(f) << " output is malformed: " << e.what() << " " << quote(b, 500)); }
        compare(c, ind, d, text(f), std::string(name(f)) + " read by the independent decoder", b);
        Srl::Tree u; auto m = thrown([&] { load(u, f, b, pick_via(c), pick_chunk(c)); });
        CHECK(c, m.empty(), name(f) << " written by the library is refused: " << m << "\n" << quote(b, 600));
        compare(c, dump(u.root()), d, text(f), std::string(name(f)) + " loaded again", b);
        auto b2 = write(u, f);
        Srl::Tree w; load(w, f, b2);
        compare(c, dump(w.root()), d, text(f), std::string(name(f)) + " written from the loaded document", b2);
        auto b3 = write(w, f);
        CHECK(c, b2 == b3, name(f) << " not stable: " << quote(b2, 400) << " vs " << quote(b3, 400));
    }
}

PBT_TEST(conversion_chain, 3500, 80000)
{
    Gen g(c);
    size_t n = 1 + c.draw(6); bool anytext = false;
    std::vector<Fmt> fs; for(size_t i = 0; i < n; i++) { fs.push_back(pick_fmt(c)); anytext |= text(fs.back()); }
    g.nonfinite = !anytext;
    auto d = g.any();
    Fmt f0 = pick_fmt(c); if(text(f0) && g.nonfinite) f0 = MP;
    // the chain starts from bytes of an independent encoder
    Bytes b = f0 == MP ? msgpack_write(&c, d) : text(f0) ? json_write(c, d, JsonStyle{ true, true, false, false }) : encode(f0, d);
    Doc want = br::expect(f0, d);
    c.nontrivial(n >= 2);
    c.note("document ", show(d, 400), "\nchain from ", name(f0));
    Fmt prev = f0; bool txt = text(f0);
    Srl::Tree keep;                                     // optionally one tree for the whole chain
    bool reuse = c.flip(), stream = c.flip();
    for(auto f : fs) {
        c.note("  -> ", name(f));
        Srl::Tree fresh; auto& t = reuse ? keep : fresh;
        auto m = thrown([&] { load(t, prev, b, pick_via(c), pick_chunk(c)); });
        CHECK(c, m.empty(), "loading " << name(prev) << " failed: " << m << " bytes " << quote(b, 500));
        compare(c, dump(t.root()), want, txt, std::string("loaded from ") + name(prev), b);
        b = write(t, f, stream);
        want = br::expect(f, want); txt |= text(f); prev = f;
    }
    Doc end; try { end = decode(prev, b); } catch(const Bad& e) { CHECK(c, false, name(prev) << " output is malformed: " << e.what()); }
    compare(c, end, want, txt, "end of chain", b);
    compare(c, load_doc(prev, b), want, txt, "end of chain, loaded", b);
}

// nodes inserted as copies (Node), values re-inserted from another place, sub-scopes written on their own
PBT_TEST(sub_documents, 3000, 30000)
{
    Gen g(c);
    auto d = g.tree();
    if(d.k == Arr) { auto x = Doc::obj(); x.m.emplace_back("a", d); d = x; }
    Srl::Tree t; make(t, d, &c);
    Doc nd = norm(d);
    c.nontrivial(depth(d) >= 2);
    c.note("document ", show(d, 500));
    // every child scope written on its own is the same document as the part of the whole
    std::vector<Srl::Node*> ns; t.root().foreach_node([&](Srl::Node& n) { ns.push_back(&n); });
    size_t k = 0;
    for(auto& m : nd.m) if(m.second.scope()) {
        auto& n = *ns.at(k++);
        Fmt f = pick_fmt(c);
        auto b = with(f, [&](auto& p) { return str(n.to_source(p)); });
        compare(c, load_doc(f, b), m.second, text(f), std::string("child ") + quote(m.first, 40) + " written alone as " + name(f), b);
    }
    // a copy of a child inserted again
    if(ns.size()) {
        auto i = c.draw(ns.size()); Srl::Node copy(*ns[i]);
        size_t seen = 0; Doc part; for(auto& m : nd.m) if(m.second.scope() && seen++ == i) part = m.second;
        t.root().insert("the copy", copy);
        nd.m.emplace_back("the copy", part);
        Fmt f = pick_fmt(c);
        compare(c, dump(t.root()), nd, false, "after inserting a copy of a child", "");
        auto b = write(t, f);
        compare(c, load_doc(f, b), nd, text(f), "after inserting a copy of a child, written", b);
    }
}
