// A registered class hierarchy with instance counting.
#pragma once
#include "zoo.h"

namespace poly {
using namespace vf; using zoo::ZOpt; using std::string; using std::vector;

extern int64_t live;                       // objects of all classes below which exist now
extern int64_t throw_at;                   // the n-th construction from now throws std::runtime_error (0: never)

struct Counted {
    Counted() { if(throw_at > 0 && --throw_at == 0) throw std::runtime_error("constructor"); live++; }
    Counted(const Counted&) { live++; }
    ~Counted() { live--; }
};

struct Shape {
    Counted counted;
    string label; int32_t serial = 0;
    virtual ~Shape() { }
    virtual const Srl::TypeID& srl_type_id() = 0;
    virtual void srl_resolve(Srl::Context& c) { c("label", label)("serial", serial); }
    virtual void fill(Rng& r, const ZOpt& o, int depth);
    virtual bool equal(Shape& o, string& w);
};
struct Circle : Shape {
    double radius = 0;
    const Srl::TypeID& srl_type_id() override;
    void srl_resolve(Srl::Context& c) override { Shape::srl_resolve(c); c("radius", radius); }
    void fill(Rng& r, const ZOpt& o, int depth) override;
    bool equal(Shape& o, string& w) override;
};
struct Polygon : Shape {
    vector<std::pair<string, int32_t>> none; vector<int32_t> points; std::map<string, double> attrs;
    const Srl::TypeID& srl_type_id() override;
    void srl_resolve(Srl::Context& c) override { Shape::srl_resolve(c); c("points", points)("attrs", attrs); }
    void fill(Rng& r, const ZOpt& o, int depth) override;
    bool equal(Shape& o, string& w) override;
};
struct Group : Shape {
    vector<std::unique_ptr<Shape>> kids; std::map<string, std::shared_ptr<Shape>> named; 
    const Srl::TypeID& srl_type_id() override;
    void srl_resolve(Srl::Context& c) override { Shape::srl_resolve(c); c("kids", kids)("named", named); }
    void fill(Rng& r, const ZOpt& o, int depth) override;
    bool equal(Shape& o, string& w) override;
};
struct Square : Polygon {                   // two levels deep
    uint16_t side = 0;
    const Srl::TypeID& srl_type_id() override;
    void srl_resolve(Srl::Context& c) override { Polygon::srl_resolve(c); c("side", side); }
    void fill(Rng& r, const ZOpt& o, int depth) override;
    bool equal(Shape& o, string& w) override;
};
struct Other {                              // registered, but no shape
    Counted counted;
    int32_t x = 0;
    virtual ~Other() { }
    virtual const Srl::TypeID& srl_type_id();
    virtual void srl_resolve(Srl::Context& c) { c("x", x); }
};
struct Tagged { int64_t tag = 7; virtual ~Tagged() { } };
struct Offset : Tagged, Shape {             // the shape does not sit at the start of the object
    int64_t more = 0;
    const Srl::TypeID& srl_type_id() override;
    void srl_resolve(Srl::Context& c) override { Shape::srl_resolve(c); c("tag", tag)("more", more); }
    void fill(Rng& r, const ZOpt& o, int depth) override;
    bool equal(Shape& o, string& w) override;
};

Shape* make(Rng& r, const ZOpt& o, int depth);
bool equal(Shape* a, Shape* b, string& w);
extern const vector<string> ids;
}
