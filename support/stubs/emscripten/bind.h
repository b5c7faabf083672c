// Stand-in for Emscripten's binding header: the wrapper's C++ code is compiled natively.
#pragma once
namespace emscripten {
template <class T> struct class_ {
    explicit class_(const char*) {}
    class_& constructor() { return *this; }
    template <class F> class_& function(const char*, F) { return *this; }
};
}
#define EMSCRIPTEN_BINDINGS(name) [[maybe_unused]] static void emscripten_bindings_##name()
