/* Reads a program in prefix notation (see tools/idl.py) and runs the Go
   generator on it. */
#include "t_generator.h"
t_type *g_type_void = new t_base_type("void", t_base_type::TYPE_VOID), *g_type_string = new t_base_type("string", t_base_type::TYPE_STRING),
       *g_type_binary, *g_type_bool = new t_base_type("bool", t_base_type::TYPE_BOOL), *g_type_byte = new t_base_type("byte", t_base_type::TYPE_BYTE),
       *g_type_i16 = new t_base_type("i16", t_base_type::TYPE_I16), *g_type_i32 = new t_base_type("i32", t_base_type::TYPE_I32),
       *g_type_i64 = new t_base_type("i64", t_base_type::TYPE_I64), *g_type_double = new t_base_type("double", t_base_type::TYPE_DOUBLE);
static std::map<std::string, t_type*> types;
static std::map<std::string, t_service*> services;
static std::istream& in = std::cin;
static std::string W() { std::string s; if (!(in >> s)) throw std::string("end of program"); return s; }
static long N() { return atol(W().c_str()); }
static std::string H() {   // a string in hexadecimal, after '='
    std::string h = W(), r; for (size_t i = 1; i + 1 < h.size(); i += 2) r.push_back((char)strtol(h.substr(i, 2).c_str(), NULL, 16)); return r;
}
static t_type* T() {
    std::string w = W();
    if (w == "list") return new t_list(T());
    if (w == "set") return new t_set(T());
    if (w == "map") { t_type* k = T(); t_type* v = T(); return new t_map(k, v); }
    if (!types.count(w)) throw "no type " + w;
    return types[w];
}
static t_const_value* V() {
    std::string w = W(); t_const_value* v = new t_const_value();
    if (w == "int") v->set_integer(strtoll(W().c_str(), NULL, 10));
    else if (w == "dbl") v->set_double(atof(W().c_str()));
    else if (w == "str") v->set_string(H());
    else if (w == "id") { v->set_identifier(W()); v->set_enum((t_enum*)types[W()]); }
    else if (w == "list") { v->set_list(); for (long n = N(); n > 0; --n) v->add_list(V()); }
    else if (w == "map") { v->set_map(); for (long n = N(); n > 0; --n) { t_const_value* k = V(); v->add_map(k, V()); } }
    else throw "no value " + w;
    return v;
}
static void fields(t_struct* s) {
    for (long n = N(); n > 0; --n) {   // id req type name (- | value)
        long id = N(); std::string q = W(); t_type* t = T(); std::string name = W();
        t_field* f = new t_field(t, name, id);
        f->set_req(q == "req" ? t_field::T_REQUIRED : q == "opt" ? t_field::T_OPTIONAL : t_field::T_OPT_IN_REQ_OUT);
        if (W() == "+") f->set_value(V());
        if (!s->append(f)) throw std::string("duplicate id");
    }
}
int main(int, char** argv) {
    t_base_type* b = new t_base_type("string", t_base_type::TYPE_STRING); b->set_binary(true); g_type_binary = b;
    const char* n[] = {"void", "string", "binary", "bool", "byte", "i16", "i32", "i64", "double"};
    t_type* g[] = {g_type_void, g_type_string, g_type_binary, g_type_bool, g_type_byte, g_type_i16, g_type_i32, g_type_i64, g_type_double};
    for (int i = 0; i < 9; ++i) types[n[i]] = g[i];
    try {
        if (W() != "program") throw std::string("no program");
        std::string name = W(); t_program* p = new t_program(name + ".thrift", name);
        p->set_out_path(argv[1]);
        for (;;) {
            std::string w = W();
            if (w == "end") break;
            std::string nm = W();
            if (w == "namespace") p->set_namespace("go", nm);
            else if (w == "typedef") { t_typedef* t = new t_typedef(p, T(), nm); types[nm] = t; p->add_typedef(t); }
            else if (w == "enum") {
                t_enum* e = new t_enum(p); e->set_name(nm);
                for (long k = N(); k > 0; --k) { std::string c = W(), v = W(); e->append(v == "-" ? new t_enum_value(c) : new t_enum_value(c, atol(v.c_str()))); }
                e->resolve_values(); types[nm] = e; p->add_enum(e);
            } else if (w == "struct" || w == "exception") {
                t_struct* s = new t_struct(p, nm); s->set_xception(w == "exception"); types[nm] = s; fields(s);
                if (w == "struct") p->add_struct(s); else p->add_xception(s);
            } else if (w == "const") { t_type* t = T(); p->add_const(new t_const(t, nm, V())); }
            else if (w == "service") {
                t_service* s = new t_service(p); s->set_name(nm); std::string x = W(); if (x != "-") s->set_extends(services[x]);
                for (long k = N(); k > 0; --k) {   // oneway? type name args exceptions
                    bool one = W() == "oneway"; t_type* r = T(); std::string fn = W();
                    t_struct* a = new t_struct(p, fn + "_args"); fields(a);
                    t_struct* xs = new t_struct(p, fn + "_xs"); fields(xs);
                    s->add_function(new t_function(r, fn, a, xs, one));
                }
                services[nm] = s; p->add_service(s);
            } else throw "no " + w;
        }
        t_generator* gen = t_generator_factory::the()->get_generator(p, std::map<std::string, std::string>(), "");
        gen->generate_program();
        delete gen;
    } catch (const std::string& e) { fprintf(stderr, "%s\n", e.c_str()); return 1; }
      catch (const char* e) { fprintf(stderr, "%s\n", e); return 1; }
    return 0;
}
