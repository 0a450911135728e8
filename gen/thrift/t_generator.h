#ifndef VERIF_T_GENERATOR_H
#define VERIF_T_GENERATOR_H
#include "ast.h"
#include "platform.h"
#include "version.h"

class t_generator {
public:
    t_generator(t_program* program) : program_(program), indent_(0), tmp_(0) {
        program_name_ = program->get_name();
        escape_['\n'] = "\\n"; escape_['\r'] = "\\r"; escape_['\t'] = "\\t"; escape_['"'] = "\\\""; escape_['\\'] = "\\\\";
    }
    virtual ~t_generator() {}
    virtual void generate_program() {
        init_generator();
        std::vector<t_enum*> enums = program_->get_enums();
        for (size_t i = 0; i < enums.size(); ++i) generate_enum(enums[i]);
        std::vector<t_typedef*> typedefs = program_->get_typedefs();
        for (size_t i = 0; i < typedefs.size(); ++i) generate_typedef(typedefs[i]);
        std::vector<t_struct*> objects = program_->get_objects();
        std::vector<t_const*> consts = program_->get_consts();
        generate_consts(consts);
        for (size_t i = 0; i < objects.size(); ++i)
            if (objects[i]->is_xception()) generate_xception(objects[i]); else generate_struct(objects[i]);
        std::vector<t_service*> services = program_->get_services();
        for (size_t i = 0; i < services.size(); ++i) {
            service_name_ = get_service_name(services[i]);
            generate_service(services[i]);
        }
        close_generator();
    }
    const t_program* get_program() const { return program_; }
    void generate_docstring_comment(std::ofstream& out, const std::string& comment_start, const std::string& line_prefix,
                                    const std::string& contents, const std::string& comment_end) {
        if (comment_start != "") indent(out) << comment_start;
        std::stringstream docs(contents, std::ios_base::in);
        while (!docs.eof()) {
            char line[1024];
            docs.getline(line, 1024);
            if (strlen(line) > 0) indent(out) << line_prefix << line << std::endl;
            else if (line_prefix == "") out << std::endl;
            else if (!docs.eof()) {
                size_t l = line_prefix.find_last_not_of(" \t");
                indent(out) << (l == std::string::npos ? std::string() : line_prefix.substr(0, l + 1)) << std::endl;
            }
        }
        if (comment_end != "") indent(out) << comment_end;
    }
    virtual std::string escape_string(const std::string& in) const {
        std::string r = "";
        for (std::string::const_iterator it = in.begin(); it < in.end(); it++) {
            std::map<char, std::string>::const_iterator res = escape_.find(*it);
            if (res != escape_.end()) r.append(res->second); else r.push_back(*it);
        }
        return r;
    }
    std::string get_escaped_string(t_const_value* c) { return escape_string(c->get_string()); }
protected:
    virtual void init_generator() {}
    virtual void close_generator() {}
    virtual void generate_consts(std::vector<t_const*> cs) { for (size_t i = 0; i < cs.size(); ++i) generate_const(cs[i]); }
    virtual void generate_typedef(t_typedef*) = 0;
    virtual void generate_enum(t_enum*) = 0;
    virtual void generate_const(t_const*) {}
    virtual void generate_struct(t_struct*) = 0;
    virtual void generate_service(t_service*) = 0;
    virtual void generate_xception(t_struct* x) { generate_struct(x); }
    virtual std::string get_program_name(t_program* p) { return p->get_name(); }
    virtual std::string get_service_name(t_service* s) { return s->get_name(); }
    virtual std::string get_out_dir() const { return program_->get_out_path() + out_dir_base_ + "/"; }
    std::string tmp(std::string name) { std::ostringstream o; o << name << tmp_++; return o.str(); }
    void indent_up() { ++indent_; }
    void indent_down() { --indent_; }
    std::string indent() { std::string r = ""; for (int i = 0; i < indent_; ++i) r += "  "; return r; }
    std::ostream& indent(std::ostream& os) { return os << indent(); }
    std::string capitalize(std::string in) { in[0] = toupper(in[0]); return in; }
    std::string decapitalize(std::string in) { in[0] = tolower(in[0]); return in; }
    std::string lowercase(std::string in) { for (size_t i = 0; i < in.size(); ++i) in[i] = tolower(in[i]); return in; }
    std::string uppercase(std::string in) { for (size_t i = 0; i < in.size(); ++i) in[i] = toupper(in[i]); return in; }
    std::string camelcase(std::string in) {
        std::ostringstream out; bool u = false;
        for (size_t i = 0; i < in.size(); ++i) {
            if (in[i] == '_') { u = true; continue; }
            out << (u ? (char)toupper(in[i]) : in[i]); u = false;
        }
        return out.str();
    }
    std::string underscore(std::string in) {
        in[0] = tolower(in[0]);
        for (size_t i = 1; i < in.size(); ++i) if (isupper(in[i])) { in[i] = tolower(in[i]); in.insert(i, "_"); }
        return in;
    }
public:
    static t_type* get_true_type(t_type* type) { while (type->is_typedef()) type = ((t_typedef*)type)->get_type(); return type; }
    static const t_type* get_true_type(const t_type* type) { while (type->is_typedef()) type = ((t_typedef*)type)->get_type(); return type; }
protected:
    t_program* program_; std::string program_name_, service_name_, out_dir_base_;
    std::map<char, std::string> escape_;
private:
    int indent_, tmp_;
};

class t_generator_factory {
public:
    virtual ~t_generator_factory() {}
    virtual t_generator* get_generator(t_program*, const std::map<std::string, std::string>&, const std::string&) = 0;
    static t_generator_factory*& the() { static t_generator_factory* f = NULL; return f; }
};
template <typename G> class t_generator_factory_impl : public t_generator_factory {
public:
    t_generator_factory_impl(const char*, const char*, const char*) { the() = this; }
    t_generator* get_generator(t_program* p, const std::map<std::string, std::string>& o, const std::string& s) { return new G(p, o, s); }
};
#define THRIFT_REGISTER_GENERATOR(language, long_name, doc) \
    class t_##language##_generator_factory_impl : public t_generator_factory_impl<t_##language##_generator> { \
    public: t_##language##_generator_factory_impl() : t_generator_factory_impl<t_##language##_generator>(#language, long_name, doc) {} }; \
    static t_##language##_generator_factory_impl _registerer;
#endif
