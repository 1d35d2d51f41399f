#pragma once
// Vocabulary of the statically decided laws. Nothing here is ever executed: the functions have no bodies and the
// analyser (sa/) gives them their meaning.
#include <cstddef>
#include <cstdint>
namespace law
{
    void require(bool condition);                  // precondition of the law (becomes a path fact)
    void prove(const char* what, bool condition);  // obligation
    void unreachable(const char* what);            // obligation: nothing that meets the preconditions gets here
    void total(const char* what);                  // obligation: nothing before this point throws or fails a contract
    void freeze();                                  // the objects that exist now are not written ...
    void thaw(const char* what);                    // ... up to here (obligation)
    void track(const void* p);                     // start counting what happens to *p
    std::size_t releases(const void* p);           // how often a release callback released what p (private data) designates
    std::size_t deletes(const void* p);            // how often p was deleted
    void storage(const void* p, std::size_t n);    // start counting storage that is allocated and not returned (p: n elements made elsewhere, or null)
    std::size_t live();                            // how much storage is
    template <class T> const T& any(const char* name);   // an arbitrary object
    template <class A, class B> void same(const char* what, const A& a, const B& b); // obligation: equal value terms
}
