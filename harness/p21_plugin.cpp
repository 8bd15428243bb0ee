// A Field3D plugin as a user writes it: registers a field class and a mapping class.
#include <Field3D/ClassFactory.h>
#include <Field3D/DenseField.h>
#include <Field3D/FieldMapping.h>
#ifndef PLUG
#define PLUG 1
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(a) #a
#define STR(a) STR2(a)
using namespace Field3D;
template <class T> class CAT(PluginField, PLUG) : public DenseField<T> {
public:
  typedef CAT(PluginField, PLUG) class_type;
  typedef boost::intrusive_ptr<class_type> Ptr;
  typedef DenseField<T> base;
  DEFINE_FIELD_RTTI_CONCRETE_CLASS
  static const char* staticClassName() { return "PluginField" STR(PLUG); }
  static const char* staticClassType() { return "PluginField" STR(PLUG) "<x>"; }
  virtual std::string className() const { return staticClassName(); }
  virtual std::string classType() const { return staticClassType(); }
  virtual FieldBase::Ptr clone() const { return FieldBase::Ptr(new class_type(*this)); }
};
template <class T> static FieldRes::Ptr create() { return FieldRes::Ptr(new CAT(PluginField, PLUG)<T>); }
extern "C" int registerField3DPlugin(ClassFactory& f) {
  f.registerField(create<float>);
  f.registerField(create<V3f>);
  return 1;
}
