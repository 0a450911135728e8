/* The classes of the Thrift 0.9 compiler that a generator works with, written
   for these checks from their use by generators: just enough of the syntax
   tree to hand programs to t_go_generator.cc. */
#ifndef VERIF_AST_H
#define VERIF_AST_H
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <stdint.h>
#include <string>
#include <sys/stat.h>
#include <sys/types.h>
#include <vector>

class t_program; class t_type; class t_scope; class t_enum;

class t_doc {
public:
    t_doc() : has_doc_(false) {}
    void set_doc(const std::string& d) { doc_ = d; has_doc_ = true; }
    const std::string& get_doc() const { return doc_; }
    bool has_doc() { return has_doc_; }
private:
    std::string doc_; bool has_doc_;
};

class t_type : public t_doc {
public:
    virtual ~t_type() {}
    virtual void set_name(const std::string& n) { name_ = n; }
    virtual const std::string& get_name() const { return name_; }
    virtual bool is_void() const { return false; }
    virtual bool is_base_type() const { return false; }
    virtual bool is_string() const { return false; }
    virtual bool is_bool() const { return false; }
    virtual bool is_typedef() const { return false; }
    virtual bool is_enum() const { return false; }
    virtual bool is_struct() const { return false; }
    virtual bool is_xception() const { return false; }
    virtual bool is_container() const { return false; }
    virtual bool is_list() const { return false; }
    virtual bool is_set() const { return false; }
    virtual bool is_map() const { return false; }
    virtual bool is_service() const { return false; }
    t_program* get_program() { return program_; }
    const t_program* get_program() const { return program_; }
    std::map<std::string, std::string> annotations_;
protected:
    t_type() : program_(NULL) {}
    t_type(t_program* p) : program_(p) {}
    t_type(t_program* p, std::string n) : program_(p), name_(n) {}
    t_type(std::string n) : program_(NULL), name_(n) {}
    t_program* program_; std::string name_;
};

class t_base_type : public t_type {
public:
    enum t_base { TYPE_VOID, TYPE_STRING, TYPE_BOOL, TYPE_BYTE, TYPE_I16, TYPE_I32, TYPE_I64, TYPE_DOUBLE };
    t_base_type(std::string n, t_base b) : t_type(n), base_(b), string_list_(false), binary_(false), string_enum_(false) {}
    t_base get_base() const { return base_; }
    bool is_void() const { return base_ == TYPE_VOID; }
    bool is_string() const { return base_ == TYPE_STRING; }
    bool is_bool() const { return base_ == TYPE_BOOL; }
    void set_string_list(bool v) { string_list_ = v; }
    bool is_string_list() const { return base_ == TYPE_STRING && string_list_; }
    void set_binary(bool v) { binary_ = v; }
    bool is_binary() const { return base_ == TYPE_STRING && binary_; }
    bool is_string_enum() const { return base_ == TYPE_STRING && string_enum_; }
    bool is_base_type() const { return true; }
    static std::string t_base_name(t_base b) {
        static const char* n[] = {"void", "string", "bool", "byte", "i16", "i32", "i64", "double"};
        return n[b];
    }
private:
    t_base base_; bool string_list_, binary_, string_enum_;
};

class t_typedef : public t_type {
public:
    t_typedef(t_program* p, t_type* t, std::string s) : t_type(p, s), type_(t), symbolic_(s) {}
    t_type* get_type() const { return type_; }
    const std::string& get_symbolic() const { return symbolic_; }
    bool is_typedef() const { return true; }
private:
    t_type* type_; std::string symbolic_;
};

class t_enum_value : public t_doc {
public:
    t_enum_value(std::string n) : name_(n), has_value_(false), value_(0) {}
    t_enum_value(std::string n, int v) : name_(n), has_value_(true), value_(v) {}
    const std::string& get_name() const { return name_; }
    bool has_value() const { return has_value_; }
    int get_value() const { return value_; }
    void set_value(int v) { has_value_ = true; value_ = v; }
    std::map<std::string, std::string> annotations_;
private:
    std::string name_; bool has_value_; int value_;
};

class t_enum : public t_type {
public:
    t_enum(t_program* p) : t_type(p) {}
    void append(t_enum_value* c) { constants_.push_back(c); }
    const std::vector<t_enum_value*>& get_constants() { return constants_; }
    t_enum_value* get_constant_by_name(const std::string& n) {
        for (size_t i = 0; i < constants_.size(); ++i) if (constants_[i]->get_name() == n) return constants_[i];
        return NULL;
    }
    bool is_enum() const { return true; }
    void resolve_values() {
        int last = -1;
        for (size_t i = 0; i < constants_.size(); ++i) {
            if (!constants_[i]->has_value()) constants_[i]->set_value(last + 1);
            last = constants_[i]->get_value();
        }
    }
private:
    std::vector<t_enum_value*> constants_;
};

class t_const_value {
public:
    enum t_const_value_type { CV_INTEGER, CV_DOUBLE, CV_STRING, CV_MAP, CV_LIST, CV_IDENTIFIER };
    /* the compiler leaves the members of other kinds unset; here they hold values that show when they are used */
    t_const_value() : intVal_(-7777), doubleVal_(-7777.25), enum_(NULL), valType_(CV_INTEGER) {}
    t_const_value(int64_t v) : intVal_(v), doubleVal_(-7777.25), enum_(NULL), valType_(CV_INTEGER) {}
    t_const_value(std::string v) : stringVal_(v), intVal_(-7777), doubleVal_(-7777.25), enum_(NULL), valType_(CV_STRING) {}
    void set_string(std::string v) { valType_ = CV_STRING; stringVal_ = v; }
    std::string get_string() const { return stringVal_; }
    void set_integer(int64_t v) { valType_ = CV_INTEGER; intVal_ = v; }
    int64_t get_integer() const {
        if (valType_ == CV_IDENTIFIER) {
            if (enum_ == NULL) throw "have identifier \"" + identifierVal_ + "\", but unset enum on line!";
            std::string n = identifierVal_; std::string::size_type d = n.rfind('.');
            if (d != std::string::npos) n = n.substr(d + 1);
            t_enum_value* v = enum_->get_constant_by_name(n);
            if (v == NULL) throw "Unable to find enum value \"" + n + "\" in enum \"" + enum_->get_name() + "\"";
            return v->get_value();
        }
        return intVal_;
    }
    void set_double(double v) { valType_ = CV_DOUBLE; doubleVal_ = v; }
    double get_double() const { return doubleVal_; }
    void set_map() { valType_ = CV_MAP; }
    void add_map(t_const_value* k, t_const_value* v) { mapVal_[k] = v; }
    const std::map<t_const_value*, t_const_value*>& get_map() const { return mapVal_; }
    void set_list() { valType_ = CV_LIST; }
    void add_list(t_const_value* v) { listVal_.push_back(v); }
    const std::vector<t_const_value*>& get_list() const { return listVal_; }
    void set_identifier(std::string v) { valType_ = CV_IDENTIFIER; identifierVal_ = v; }
    std::string get_identifier() const { return identifierVal_; }
    void set_enum(t_enum* e) { enum_ = e; }
    t_const_value_type get_type() const { return valType_; }
private:
    std::map<t_const_value*, t_const_value*> mapVal_;
    std::vector<t_const_value*> listVal_;
    std::string stringVal_; int64_t intVal_; double doubleVal_; std::string identifierVal_;
    t_enum* enum_; t_const_value_type valType_;
};

class t_field : public t_doc {
public:
    enum e_req { T_REQUIRED, T_OPTIONAL, T_OPT_IN_REQ_OUT };
    t_field(t_type* t, std::string n) : type_(t), name_(n), key_(0), req_(T_OPT_IN_REQ_OUT), value_(NULL), xsd_optional_(false), reference_(false) {}
    t_field(t_type* t, std::string n, int32_t k) : type_(t), name_(n), key_(k), req_(T_OPT_IN_REQ_OUT), value_(NULL), xsd_optional_(false), reference_(false) {}
    t_type* get_type() { return type_; }
    const t_type* get_type() const { return type_; }
    const std::string& get_name() const { return name_; }
    int32_t get_key() const { return key_; }
    e_req get_req() const { return req_; }
    void set_req(e_req r) { req_ = r; }
    void set_value(t_const_value* v) { value_ = v; }
    t_const_value* get_value() { return value_; }
    const t_const_value* get_value() const { return value_; }
    bool get_reference() { return reference_; }
    struct key_compare { bool operator()(t_field const* const& a, t_field const* const& b) { return a->get_key() < b->get_key(); } };
    std::map<std::string, std::string> annotations_;
private:
    t_type* type_; std::string name_; int32_t key_; e_req req_; t_const_value* value_; bool xsd_optional_, reference_;
};

class t_struct : public t_type {
public:
    typedef std::vector<t_field*> members_type;
    t_struct(t_program* p) : t_type(p), is_xception_(false), is_union_(false) {}
    t_struct(t_program* p, const std::string& n) : t_type(p, n), is_xception_(false), is_union_(false) {}
    void set_name(const std::string& n) { name_ = n; }
    void set_xception(bool x) { is_xception_ = x; }
    void set_union(bool x) { is_union_ = x; }
    bool append(t_field* e) {
        for (size_t i = 0; i < members_in_id_order_.size(); ++i)
            if (members_in_id_order_[i]->get_key() == e->get_key()) return false;
        members_.push_back(e);
        members_in_id_order_.insert(std::upper_bound(members_in_id_order_.begin(), members_in_id_order_.end(), e, t_field::key_compare()), e);
        return true;
    }
    const members_type& get_members() { return members_; }
    const members_type& get_sorted_members() { return members_in_id_order_; }
    bool is_struct() const { return !is_xception_; }
    bool is_xception() const { return is_xception_; }
    bool is_union() const { return is_union_; }
    t_field* get_field_by_name(std::string n) {
        for (size_t i = 0; i < members_.size(); ++i) if (members_[i]->get_name() == n) return members_[i];
        return NULL;
    }
private:
    members_type members_, members_in_id_order_; bool is_xception_, is_union_;
};

class t_container : public t_type {
public:
    t_container() : has_cpp_name_(false) {}
    void set_cpp_name(std::string n) { cpp_name_ = n; has_cpp_name_ = true; }
    bool has_cpp_name() { return has_cpp_name_; }
    std::string get_cpp_name() { return cpp_name_; }
    bool is_container() const { return true; }
private:
    std::string cpp_name_; bool has_cpp_name_;
};
class t_list : public t_container {
public:
    t_list(t_type* e) : elem_(e) {}
    t_type* get_elem_type() const { return elem_; }
    bool is_list() const { return true; }
private: t_type* elem_;
};
class t_set : public t_container {
public:
    t_set(t_type* e) : elem_(e) {}
    t_type* get_elem_type() const { return elem_; }
    bool is_set() const { return true; }
private: t_type* elem_;
};
class t_map : public t_container {
public:
    t_map(t_type* k, t_type* v) : key_(k), val_(v) {}
    t_type* get_key_type() const { return key_; }
    t_type* get_val_type() const { return val_; }
    bool is_map() const { return true; }
private: t_type *key_, *val_;
};

class t_const : public t_doc {
public:
    t_const(t_type* t, std::string n, t_const_value* v) : type_(t), name_(n), value_(v) {}
    t_type* get_type() const { return type_; }
    std::string get_name() const { return name_; }
    t_const_value* get_value() const { return value_; }
private: t_type* type_; std::string name_; t_const_value* value_;
};

class t_function : public t_doc {
public:
    t_function(t_type* r, std::string n, t_struct* a, bool o = false) : ret_(r), name_(n), args_(a), xs_(new t_struct(NULL)), oneway_(o) {}
    t_function(t_type* r, std::string n, t_struct* a, t_struct* x, bool o = false) : ret_(r), name_(n), args_(a), xs_(x), oneway_(o) {
        if (oneway_ && !xs_->get_members().empty()) throw std::string("Oneway methods can't throw exceptions.");
    }
    t_type* get_returntype() const { return ret_; }
    const std::string& get_name() const { return name_; }
    t_struct* get_arglist() const { return args_; }
    t_struct* get_xceptions() const { return xs_; }
    bool is_oneway() const { return oneway_; }
private: t_type* ret_; std::string name_; t_struct *args_, *xs_; bool oneway_;
};

class t_service : public t_type {
public:
    t_service(t_program* p) : t_type(p), extends_(NULL) {}
    bool is_service() const { return true; }
    void set_extends(t_service* e) { extends_ = e; }
    void add_function(t_function* f) { functions_.push_back(f); }
    const std::vector<t_function*>& get_functions() const { return functions_; }
    t_service* get_extends() { return extends_; }
private: std::vector<t_function*> functions_; t_service* extends_;
};

class t_program : public t_doc {
public:
    t_program(std::string path, std::string name) : path_(path), name_(name), out_path_("./") {}
    const std::string& get_path() const { return path_; }
    const std::string& get_out_path() const { return out_path_; }
    void set_out_path(std::string o, bool = false) { out_path_ = o; if (!o.empty() && o[o.size() - 1] != '/') out_path_ += '/'; }
    bool is_out_path_absolute() const { return false; }
    const std::string& get_name() const { return name_; }
    const std::string& get_namespace() const { return namespace_; }
    const std::string& get_include_prefix() const { return include_prefix_; }
    const std::vector<t_typedef*>& get_typedefs() const { return typedefs_; }
    const std::vector<t_enum*>& get_enums() const { return enums_; }
    const std::vector<t_const*>& get_consts() const { return consts_; }
    const std::vector<t_struct*>& get_structs() const { return structs_; }
    const std::vector<t_struct*>& get_xceptions() const { return xceptions_; }
    const std::vector<t_struct*>& get_objects() const { return objects_; }
    const std::vector<t_service*>& get_services() const { return services_; }
    const std::vector<t_program*>& get_includes() const { return includes_; }
    void add_typedef(t_typedef* t) { typedefs_.push_back(t); }
    void add_enum(t_enum* e) { enums_.push_back(e); }
    void add_const(t_const* c) { consts_.push_back(c); }
    void add_struct(t_struct* s) { objects_.push_back(s); structs_.push_back(s); }
    void add_xception(t_struct* s) { objects_.push_back(s); xceptions_.push_back(s); }
    void add_service(t_service* s) { services_.push_back(s); }
    void add_include(t_program* p) { includes_.push_back(p); }
    void set_namespace(std::string l, std::string n) { namespaces_[l] = n; }
    std::string get_namespace(std::string l) const {
        std::map<std::string, std::string>::const_iterator i;
        if ((i = namespaces_.find(l)) != namespaces_.end() || (i = namespaces_.find("*")) != namespaces_.end()) return i->second;
        return std::string();
    }
private:
    std::string path_, name_, out_path_, namespace_, include_prefix_;
    std::vector<t_typedef*> typedefs_; std::vector<t_enum*> enums_; std::vector<t_const*> consts_;
    std::vector<t_struct*> objects_, structs_, xceptions_; std::vector<t_service*> services_;
    std::vector<t_program*> includes_; std::map<std::string, std::string> namespaces_;
};

extern t_type *g_type_void, *g_type_string, *g_type_binary, *g_type_bool, *g_type_byte, *g_type_i16, *g_type_i32, *g_type_i64, *g_type_double;
#endif
