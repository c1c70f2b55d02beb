// P24: whatever of the user's code throws (throwing.h)
#include "throwing.h"

int main(int argc, char** argv)
{
    for(auto a : { "UTF-8", "UTF-16LE", "UTF-32LE" }) for(auto b : { "UTF-8", "UTF-16LE", "UTF-32LE" }) iconv_open(a, b);     // the system's tables come and go otherwise
    { Tree t; Whole w; Rng r(1); fill(r, w, 1); for(auto f : all_formats) with_parser(f, [&](Parser& p) { Whole o; auto b = t.store(w, p); t.restore(o, b.data(), b.size(), p); });
      t.root().insert(u"x", std::u32string(U"\u00e9")); for(auto f : all_formats) with_parser(f, [&](Parser& p) { Tree u; u.load_source(t.to_source(p), p); u.root().unwrap_field<std::u32string>(U"x"); u.root().unwrap_field<std::u16string>("x"); }); }  // lazily created state
    return run(argc, argv, "P24", { { "operations", 4000, 16000, operations }, { "lifetimes", 2000, 80000, lifetimes } });
}
