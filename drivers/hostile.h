#pragma once
#include "doc.h"
namespace hostile {
using namespace vf;
typedef std::function<void(Exact&, Srl::Parser&)> Use;
Buf valid_doc(Rng&, Fmt);
GenOpt opt(Rng&);
Buf mutated(Rng&, Fmt);
Buf garbage(Rng&, Fmt);
Buf attack(Rng&, Fmt);
Buf mutate(Rng&, Buf, Fmt);
// runs fn and judges how it ends
void guarded(const Buf& b, Fmt f, const char* how, const Use& fn);
void typed_groups(std::vector<vf::Group>& gs);
}
