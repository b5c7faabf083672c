// Offline substitute for tree-gen's annotatable support class.
#pragma once
#include <any>
#include <memory>
#include <typeindex>
#include <unordered_map>

namespace tree::annotatable {
class Annotatable {
    struct Anything { virtual ~Anything() = default; };
    template <class T> struct Holder : Anything { T v; explicit Holder(const T& t) : v(t) {} };
    std::unordered_map<std::type_index, std::shared_ptr<Anything>> annotations;
public:
    Annotatable() = default;
    Annotatable(const Annotatable&) = default;
    Annotatable& operator=(const Annotatable&) = default;
    virtual ~Annotatable() = default;
    template <class T> void set_annotation(const T& ob) { annotations[std::type_index(typeid(T))] = std::make_shared<Holder<T>>(ob); }
    template <class T> bool has_annotation() const { return annotations.count(std::type_index(typeid(T))) > 0; }
    template <class T> T* get_annotation_ptr() {
        auto it = annotations.find(std::type_index(typeid(T)));
        return it == annotations.end() ? nullptr : &static_cast<Holder<T>*>(it->second.get())->v;
    }
    template <class T> const T* get_annotation_ptr() const {
        auto it = annotations.find(std::type_index(typeid(T)));
        return it == annotations.end() ? nullptr : &static_cast<const Holder<T>*>(it->second.get())->v;
    }
    template <class T> T& get_annotation() { if (auto p = get_annotation_ptr<T>()) return *p; throw std::runtime_error("object does not have an annotation of this type"); }
    template <class T> const T& get_annotation() const { if (auto p = get_annotation_ptr<T>()) return *p; throw std::runtime_error("object does not have an annotation of this type"); }
    template <class T> void copy_annotation(const Annotatable& src) { if (auto p = src.get_annotation_ptr<T>()) set_annotation<T>(*p); }
    void copy_annotations(const Annotatable& src) { for (auto& [k, v] : src.annotations) annotations[k] = v; }
    template <class T> void erase_annotation() { annotations.erase(std::type_index(typeid(T))); }
};
}  // namespace tree::annotatable
