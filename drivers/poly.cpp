#include "poly.h"
namespace poly {
int64_t live = 0, throw_at = 0;
const vector<string> ids { "shape:circle", "gMPflVXtwGDXbIhP73TX", "a rather long class identifier, for a group of shapes", "LtHf1prlU1bCeYZEdqWf", "Other", "\xC3\x84ther" };
static const auto r_circle = Srl::register_type<Circle>("shape:circle");
static const auto r_polygon = Srl::register_type<Polygon>("gMPflVXtwGDXbIhP73TX");
static const auto r_group = Srl::register_type<Group>("a rather long class identifier, for a group of shapes");
static const auto r_square = Srl::register_type<Square>("LtHf1prlU1bCeYZEdqWf")     /* the same hash as that of Polygon */;
static const auto r_other = Srl::register_type<Other>("Other");
static const auto r_offset = Srl::register_type<Offset>("\xC3\x84ther");
const Srl::TypeID& Circle::srl_type_id() { return r_circle; }
const Srl::TypeID& Polygon::srl_type_id() { return r_polygon; }
const Srl::TypeID& Group::srl_type_id() { return r_group; }
const Srl::TypeID& Square::srl_type_id() { return r_square; }
const Srl::TypeID& Other::srl_type_id() { return r_other; }
const Srl::TypeID& Offset::srl_type_id() { return r_offset; }

void Shape::fill(Rng& r, const ZOpt& o, int) { zoo::gen(r, label, o); serial = (int32_t)r.bits64(); }
void Circle::fill(Rng& r, const ZOpt& o, int d) { Shape::fill(r, o, d); zoo::gen(r, radius, o); }
void Polygon::fill(Rng& r, const ZOpt& o, int d) { Shape::fill(r, o, d); zoo::gen(r, points, o); zoo::gen(r, attrs, o); }
void Square::fill(Rng& r, const ZOpt& o, int d) { Polygon::fill(r, o, d); side = (uint16_t)r.bits64(); }
void Offset::fill(Rng& r, const ZOpt& o, int d) { Shape::fill(r, o, d); tag = (int64_t)r.bits64(); more = (int64_t)r.bits64(); }
void Group::fill(Rng& r, const ZOpt& o, int d)
{
    Shape::fill(r, o, d);
    if(d <= 0) return;
    for(auto n = r.below(4); n > 0; n--) kids.emplace_back(make(r, o, d - 1));
    vector<std::shared_ptr<Shape>> pool;
    for(auto n = r.below(4); n > 0; n--) {
        if(pool.empty() || r.chance(60)) pool.emplace_back(make(r, o, d - 1));
        named["n" + std::to_string(n)] = r.pick(pool);
    }
}

bool Shape::equal(Shape& o, string& w)
{
    if(strcmp(srl_type_id().name(), o.srl_type_id().name()) != 0 || typeid(*this) != typeid(o)) { w = string("class ") + srl_type_id().name() + " became " + o.srl_type_id().name(); return false; }
    return zoo::eq(label, o.label, w) && zoo::eq(serial, o.serial, w);
}
bool Circle::equal(Shape& s, string& w) { return Shape::equal(s, w) && zoo::eq(radius, dynamic_cast<Circle&>(s).radius, w); }
bool Polygon::equal(Shape& s, string& w) { if(!Shape::equal(s, w)) return false; auto& o = dynamic_cast<Polygon&>(s); return zoo::eq(points, o.points, w) && zoo::eq(attrs, o.attrs, w); }
bool Square::equal(Shape& s, string& w) { return Polygon::equal(s, w) && zoo::eq(side, dynamic_cast<Square&>(s).side, w); }
bool Offset::equal(Shape& s, string& w) { if(!Shape::equal(s, w)) return false; auto& o = dynamic_cast<Offset&>(s); return zoo::eq(tag, o.tag, w) && zoo::eq(more, o.more, w); }
bool Group::equal(Shape& s, string& w)
{
    if(!Shape::equal(s, w)) return false;
    auto& o = dynamic_cast<Group&>(s);
    if(kids.size() != o.kids.size() || named.size() != o.named.size()) { w = "number of members"; return false; }
    for(size_t i = 0; i < kids.size(); i++) if(!poly::equal(kids[i].get(), o.kids[i].get(), w)) return false;
    for(auto& n : named) {
        auto f = o.named.find(n.first);
        if(f == o.named.end()) { w = "named member lost"; return false; }
        if(!poly::equal(n.second.get(), f->second.get(), w)) return false;
        for(auto& m : named) if((m.second == n.second) != (o.named[m.first] == f->second)) { w = "sharing of members changed"; return false; }
    }
    return true;
}
Shape* make(Rng& r, const ZOpt& o, int depth)
{
    std::unique_ptr<Shape> s;
    switch(r.below(depth > 0 ? 7 : 4)) {
        case 0 : s.reset(new Circle()); break;
        case 1 : s.reset(new Polygon()); break;
        case 2 : s.reset(new Square()); break;
        case 3 : s.reset(new Offset()); break;
        default : s.reset(new Group()); break;
    }
    s->fill(r, o, depth);
    return s.release();
}
bool equal(Shape* a, Shape* b, string& w)
{
    if(!a || !b) { w = "empty"; return !a && !b; }
    return a->equal(*b, w);
}
}
