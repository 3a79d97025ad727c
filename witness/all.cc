// Instantiates the templates of the C++ API so that the analysis sees all of their members with concrete types, and so
// that a member that no longer compiles for the types it is provided for fails the build of this file.
#include <clingo.hh>
#include <iterator>
#include <sstream>
#include <type_traits>
#include <utility>

namespace Witness {

using namespace Clingo;
using namespace Clingo::AST;

struct Visit {
    using R = int;
    int visit(int &);
    int visit(Symbol &);
    int visit(std::string &);
    int visit(int const &);
    int visit(Symbol const &);
    int visit(std::string const &);
};

using TestVariant = Variant<int, Symbol, std::string>;

} // namespace Witness

// {{{1 utilities

template class Clingo::Optional<int>;
template class Clingo::Optional<Clingo::AST::Node>;
template class Clingo::Variant<int, Clingo::Symbol, std::string>;
template class Clingo::ValuePointer<Clingo::Symbol>;
template class Clingo::ValuePointer<Clingo::AST::Node>;
template class Clingo::Span<int>;
template class Clingo::Span<uint32_t>;
template class Clingo::Span<Clingo::Symbol>;
template class Clingo::Span<Clingo::WeightedLiteral>;
template class Clingo::Span<Clingo::SymbolicLiteral>;
template class Clingo::Span<char const *>;
template class Clingo::Span<clingo_ast_argument_t>;
template class Clingo::Span<Clingo::Part>;
template class Clingo::Span<long>;
template class Clingo::Span<Clingo::id_t, Clingo::ToTheoryIterator<Clingo::TheoryTermIterator>>;
template class Clingo::Span<Clingo::id_t, Clingo::ToTheoryIterator<Clingo::TheoryElementIterator>>;
template class Clingo::ArrayIterator<Clingo::Configuration>;
template class Clingo::ArrayIterator<Clingo::Statistics, Clingo::Statistics const *>;
template class Clingo::ArrayIterator<Clingo::AST::NodeRef, Clingo::AST::NodeVector *>;
template class Clingo::ArrayIterator<char const *, Clingo::AST::StringVector const *>;
template class Clingo::KeyIterator<Clingo::Configuration>;
template class Clingo::TheoryIterator<Clingo::TheoryTerm>;
template class Clingo::TheoryIterator<Clingo::TheoryElement>;
template class Clingo::IteratorRange<Clingo::ConfigurationKeyIterator>;
template class Clingo::StatisticsBase<false>;

namespace Witness {

// the members of StatisticsBase<false> include all operations that modify statistics
struct UserStats {
    static void all(UserStatistics s, char const *name, double d) {
        s.ensure_size(3, StatisticsType::Value);
        s.push(StatisticsType::Value);
        s.add_subkey(name, StatisticsType::Map);
        s.set_value(d);
        (void)s.type();
        (void)s.size();
        size_t zero = 0;
        (void)s[zero];
        (void)s.at(zero);
        (void)s[name];
        (void)s.at(name);
        (void)s.has_subkey(name);
        for (auto k : s.keys()) { (void)k; }
        for (auto x : s) { (void)x.value(); }
        (void)static_cast<double>(s);
        (void)s.to_c();
    }
};

void variants(TestVariant v, Visit &visit) {
    TestVariant a{1};
    TestVariant b{std::string{"a"}};
    std::string str;
    std::string const cstr;
    TestVariant c{str};
    TestVariant d{cstr};
    TestVariant e = TestVariant::make<std::string>("abc");
    e.emplace<Symbol>(Number(3));
    e = str;
    e = cstr;
    e = std::string{};
    e = v;
    e = std::move(v);
    (void)e.is<Symbol>();
    (void)e.get<Symbol>();
    TestVariant const &ce = e;
    (void)ce.get<Symbol>();
    (void)ce.is<int>();
    (void)e.accept(visit);
    (void)ce.accept(visit);
    e.swap(a);
    std::ostringstream out;
    out << e;
    NodeValue nv{3};
    nv = Optional<Node>{};
    (void)nv.get<NodeVector>();
    (void)nv.get<StringVector>();
}

void optionals(Node n, Optional<Node> x, Optional<Node> const &y) {
    x.emplace(n);
    Optional<int> i;
    i.emplace(3);
    Optional<Node> z{y};
    z = y;
    z = std::move(x);
    (void)*z;
    (void)*y;
    (void)y.get();
    (void)bool(y);
}

void spans(SymbolSpan a, SymbolSpan b, SymbolVector const &v, LiteralSpan l) {
    std::ostringstream out;
    out << a;
    out << l;
    (void)(a == b);
    (void)equal_range(a, v);
    (void)make_span(v.data(), v.size());
    for (auto &x : a) { (void)x; }
    (void)begin(a);
    (void)end(a);
    SymbolSpan c{v};
    SymbolSpan d{Number(1), Number(2)};
    LiteralSpan e{1, 2};
    (void)e.size();
    (void)c.size();
    (void)d.size();
}

// {{{1 AST

Node nodes(Location const &loc, char const *str, Node n, Optional<Node> o, std::vector<Node> const &v, std::vector<char const *> const &s,
           Symbol sym) {
    Node a{Type::Variable, loc, str};
    Node b{Type::SymbolicTerm, loc, sym};
    Node c{Type::UnaryOperation, loc, 1, n};
    Node d{Type::Interval, loc, n, n};
    Node e{Type::Function, loc, str, v, 0};
    Node f{Type::Pool, loc, v};
    Node g{Type::BodyAggregate, loc, o, 1, v, o};
    Node h{Type::TheoryAtomDefinition, loc, 1, str, 1, s};
    return Node{Type::TheoryGuardDefinition, s, str};
}

struct NodeVisitor {
    bool operator()(Node const &n) { return n.type() != Type::Function; }
};
struct AttrVisitor {
    void operator()(Attribute a, NodeValue v);
};
struct Transformer {
    Node operator()(Node const &n);
};

void visits(Node const &n, NodeVisitor v, AttrVisitor a, Transformer t, std::function<bool(Node const &)> const &f) {
    n.visit_ast(v);
    n.visit_ast(f);
    n.visit_attribute(a);
    (void)n.transform_ast(t);
    (void)n.get<int>(Attribute::Arity);
    (void)n.get<Symbol>(Attribute::Symbol);
    (void)n.get<Location>(Attribute::Location);
    (void)n.get<char const *>(Attribute::Name);
    (void)n.get<Node>(Attribute::Term);
    (void)n.get<Optional<Node>>(Attribute::Left);
    (void)n.get<NodeVector>(Attribute::Arguments);
    (void)n.get<StringVector>(Attribute::Operators);
}

void vectors(NodeVector v, StringVector s, Node const &n) {
    v[0] = n;
    Node m = v[1];
    (void)v[0].get();
    s[0] = "a";
    char const *x = s[1];
    (void)x;
    for (Node y : v) { (void)y; }
    for (char const *y : s) { (void)y; }
    for (auto it = v.begin(); it != v.end(); ++it) { (void)it->get(); }
}

void parse(char const *prg, StringSpan files, Control &ctl, std::function<void(Node)> cb, Logger log) {
    parse_string(prg, cb, log);
    parse_string(prg, cb, ctl, log);
    parse_files(files, cb, log);
    parse_files(files, cb, ctl, log);
    ProgramBuilder a{ctl};
    ProgramBuilder b{std::move(a)};
    b = std::move(a);
    std::function<void(ProgramBuilder &)> g;
    with_builder(ctl, g);
    std::function<void(Backend &)> h;
    ctl.with_backend(h);
    std::vector<int> r; for (auto m : make_range(r.begin(), r.end())) { (void)m; }
}

// {{{1 iteration

void iterate(Control &ctl, Propagator &p, Heuristic &h, GroundProgramObserver &o, SolveHandle sh) {
    for (auto atom : ctl.symbolic_atoms()) { (void)atom.literal(); }
    for (auto atom : ctl.theory_atoms()) {
        for (auto e : atom.elements()) {
            for (auto t : e.tuple()) { (void)t.type(); }
            for (auto l : e.condition()) { (void)l; }
        }
    }
    for (auto const &m : sh) { (void)m.number(); }
    auto conf = ctl.configuration();
    for (auto k : conf.keys()) { conf[k] = "1"; }
    for (auto x : conf) { (void)x.is_value(); }
    for (auto k : ctl.statistics().keys()) { (void)k; }
    for (auto x : ctl.statistics()) { (void)x.value(); }
    ctl.register_propagator(p);
    ctl.register_propagator(h);
    ctl.register_observer(o);
}

void assign(Assignment a) {
    for (auto l : a) { (void)l; }
    for (auto l : a.trail()) { (void)l; }
    (void)std::distance(a.begin(), a.end());
    (void)a.trail()[0];
}

template <class I> void random_access(I a, I b) {
    (void)(a == b);
    (void)(a != b);
    (void)(a < b);
    (void)(a > b);
    (void)(a <= b);
    (void)(a >= b);
    (void)(a - b);
    (void)(a + 1);
    (void)(1 + a);
    (void)(a - 1);
    (void)*a;
    a += 1;
    a -= 1;
    ++a;
    --a;
    (void)a++;
    (void)a--;
    using std::swap;
    swap(a, b);
}
template void random_access(ArrayIterator<Configuration>, ArrayIterator<Configuration>);
template void random_access(ArrayIterator<Statistics, Statistics const *>, ArrayIterator<Statistics, Statistics const *>);
template void random_access(ArrayIterator<NodeRef, NodeVector *>, ArrayIterator<NodeRef, NodeVector *>);
template void random_access(ArrayIterator<char const *, StringVector const *>, ArrayIterator<char const *, StringVector const *>);
template void random_access(StringVector::iterator, StringVector::iterator);
template void random_access(NodeVector::const_iterator, NodeVector::const_iterator);
template void random_access(KeyIterator<Configuration>, KeyIterator<Configuration>);
template void random_access(KeyIterator<Statistics>, KeyIterator<Statistics>);
template void random_access(TheoryIterator<TheoryTerm>, TheoryIterator<TheoryTerm>);
template void random_access(TheoryIterator<TheoryElement>, TheoryIterator<TheoryElement>);
template void random_access(TheoryAtomIterator, TheoryAtomIterator);
template void random_access(Trail::iterator, Trail::iterator);
template void random_access(Assignment::iterator, Assignment::iterator);

void hashes(Symbol s, Signature g, Node const &n) {
    (void)std::hash<Symbol>{}(s);
    (void)std::hash<Signature>{}(g);
    (void)std::hash<Node>{}(n);
}

} // namespace Witness
// }}}1

// {{{1 layout: arrays of these types are passed to and received from the engine as arrays of the engine's types

namespace Witness {

template <class T, class U>
constexpr bool same_layout() {
    return sizeof(T) == sizeof(U) && alignof(T) == alignof(U) && std::is_standard_layout<T>::value && std::is_trivially_copyable<T>::value;
}

static_assert(same_layout<Symbol, clingo_symbol_t>(), "Symbol");
static_assert(same_layout<Signature, clingo_signature_t>(), "Signature");
static_assert(same_layout<WeightedLiteral, clingo_weighted_literal_t>(), "WeightedLiteral");
static_assert(same_layout<Part, clingo_part_t>(), "Part");
static_assert(same_layout<literal_t, clingo_literal_t>(), "literal_t");
static_assert(same_layout<atom_t, clingo_atom_t>(), "atom_t");
static_assert(same_layout<id_t, clingo_id_t>(), "id_t");
static_assert(same_layout<weight_t, clingo_weight_t>(), "weight_t");

} // namespace Witness
