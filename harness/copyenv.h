// Objects of the library that keep state between calls, behind one interface (C20).
#pragma once
#include "catalog.h"
struct Obj {                        // an object of the library with what its user keeps next to it
    virtual ~Obj() {}
    virtual Obj* copy() const = 0;  // copy construction (may run out of memory)
    virtual Obj* moved() = 0;       // move construction; *this is only destroyed afterwards
    virtual bool assign(const Obj&) = 0;        // copy assignment, false if the class has none
    virtual void act(int choice, Out& o) = 0;   // one use of the object
};
struct ObjKind { std::string name; std::function<Obj*()> make; };       // make: a fresh object, always the same
ObjKind gen_obj(Rng& g);
