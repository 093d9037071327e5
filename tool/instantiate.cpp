// Every member of the container templates, for an element with its own copy constructor, assignment and destructor:
// the library itself only instantiates the members it uses.
#include <reactphysics3d/reactphysics3d.h>
#include <reactphysics3d/containers/Array.h>
#include <reactphysics3d/containers/Deque.h>
#include <reactphysics3d/containers/LinkedList.h>
#include <reactphysics3d/containers/Map.h>
#include <reactphysics3d/containers/Pair.h>
#include <reactphysics3d/containers/Set.h>
#include <reactphysics3d/containers/Stack.h>
namespace rp3dprobe {
struct Elem {
    int* own;
    Elem(); Elem(const Elem&); Elem& operator=(const Elem&); ~Elem();
    bool operator==(const Elem&) const; bool operator!=(const Elem&) const;
};
}
namespace std { template<> struct hash<rp3dprobe::Elem> { size_t operator()(const rp3dprobe::Elem&) const; }; }
namespace reactphysics3d {
template class Array<rp3dprobe::Elem>;
template class Deque<rp3dprobe::Elem>;
template class LinkedList<rp3dprobe::Elem>;
template class Map<rp3dprobe::Elem, rp3dprobe::Elem>;
template class Set<rp3dprobe::Elem>;
template class Stack<rp3dprobe::Elem>;
}
