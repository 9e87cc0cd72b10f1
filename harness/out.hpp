// reading the written VTK files
#pragma once
struct VpTag { std::string name; std::vector<std::pair<std::string, std::string>> attr; size_t end; };
static bool next_tag(const std::string &s, size_t &p, VpTag &t) {
    p = s.find('<', p);
    if (p == std::string::npos) return false;
    p++; t.attr.clear();
    const size_t close = s.find('>', p);
    vp_assert(close != std::string::npos, "well-formed tag");
    size_t e = s.find(' ', p);
    if (e > close) e = close;
    t.name = s.substr(p, e - p);
    p = e;
    for (;;) {
        const size_t eq = s.find('=', p);
        if (eq == std::string::npos || eq > close) break;
        vp_assert(s[eq + 1] == '"', "quoted attribute");
        const size_t q = s.find('"', eq + 2);
        vp_assert(q != std::string::npos && q < close, "quoted attribute");
        size_t k = eq; while (s[k - 1] != ' ' && s[k - 1] != '\n') k--;
        t.attr.push_back({s.substr(k, eq - k), s.substr(eq + 2, q - eq - 2)});
        p = q + 1;
    }
    p = close;
    p++; t.end = p;
    return true;
}
static std::string attr(const VpTag &t, const char *k) { for (auto &a : t.attr) if (a.first == k) return a.second; return ""; }
static size_t reference(const std::string &s, size_t p, char open) { vp_assert(p < s.size() && s[p] == open, "a value"); size_t k = 0; for (p++; s[p] != '\2'; p++) k = 10 * k + (s[p] - '0'); return k; }
static long long whole(const std::string &s) { // written as a number or as text
    if (!s.empty() && s[0] == '\1') return vp_nums[reference(s, 0, '\1')].i;
    long long v = 0; vp_assert(!s.empty(), "a number"); for (char c : s) { vp_assert(c >= '0' && c <= '9', "a number"); v = 10 * v + (c - '0'); } return v;
}
struct Array { std::string section, name, type; long long comps; const VpArray *data; };
struct Vtk { std::string kind; std::vector<Array> a; std::vector<std::string> pieces; long long points = -1, lines = -1; int npieces = 0; };
static Vtk parse(const std::string &file) {
    Vtk r; size_t p = 0; VpTag t; std::string section;
    auto *f = vp_file(file);
    vp_assert(f != nullptr, "the file is written");
    std::vector<std::string> open;
    while (next_tag(f->text, p, t)) {
        const std::string &n = t.name;
        if (n[0] == '?') continue;
        if (n[0] == '/') { vp_assert(!open.empty() && open.back() == n.substr(1), "tags are nested"); open.pop_back(); continue; }
        if (f->text[t.end - 2] != '/') open.push_back(n);
        if (n == "VTKFile") r.kind = attr(t, "type");
        else if (n == "Piece") {
            r.npieces++;
            if (!attr(t, "Source").empty()) r.pieces.push_back(attr(t, "Source"));
            if (!attr(t, "NumberOfPoints").empty()) { r.points = whole(attr(t, "NumberOfPoints")); r.lines = whole(attr(t, "NumberOfLines")); }
        } else if (n == "DataArray" || n == "PDataArray") {
            Array a; a.section = section; a.name = attr(t, "Name"); a.type = attr(t, "type"); a.comps = whole(attr(t, "NumberOfComponents")); a.data = nullptr;
            vp_assert(attr(t, "format") == "binary", "binary arrays");
            if (n == "DataArray") { size_t q = t.end; while (f->text[q] == '\n') q++; a.data = &vp_arrays[reference(f->text, q, '\3')]; }
            r.a.push_back(a);
        } else section = n;
    }
    vp_assert(open.empty(), "tags are closed");
    return r;
}
static std::vector<Array> in(const Vtk &v, const char *section) { std::vector<Array> r; for (auto &a : v.a) if (a.section == section) r.push_back(a); return r; }
static const Array &get(const Vtk &v, const char *section, const char *name) {
    const Array *r = nullptr;
    for (auto &a : v.a) if (a.section == section && a.name == name) r = &a;
    vp_assert(r != nullptr, "the array is written");
    return *r;
}
// header and piece fit each other
static void matching(const Vtk &h, const Vtk &p) {
    vp_assert(h.kind == "PPolyData" && p.kind == "PolyData", "kinds of the files");
    vp_assert(p.npieces == 1 && p.points >= 0 && p.lines >= 0, "one piece with its numbers of points and lines");
    const char *S[][2] = {{"PPointData", "PointData"}, {"PCellData", "CellData"}, {"PPoints", "Points"}};
    for (auto &s : S) {
        auto a = in(h, s[0]), b = in(p, s[1]);
        vp_assert(a.size() == b.size(), "as many arrays in the header as in the piece");
        for (size_t k = 0; k < a.size(); k++) {
            if (s != S[2]) vp_assert(a[k].name == b[k].name, "same name and order");
            vp_assert(a[k].type == b[k].type, "same type"); vp_assert(a[k].comps == b[k].comps, "same number of components");
        }
    }
    vp_assert(in(p, "Points").size() == 1 && in(p, "Points")[0].comps == 3, "points have three coordinates");
    for (auto &a : p.a) {
        const char c = a.data->type;
        vp_assert(a.type == (c == 'f' ? "Float32" : c == 'd' ? "Float64" : c == 'i' ? "Int32" : "UInt8"), "the declared type is that of the data");
        if (a.section == "Lines") continue;
        vp_assert_eqi(a.data->v.size(), a.comps * (a.section == "CellData" ? p.lines : p.points), "as many tuples as points or cells");
    }
    auto &off = get(p, "Lines", "offsets"), &con = get(p, "Lines", "connectivity");
    vp_assert_eqi(off.data->v.size(), p.lines, "one offset per line"); vp_assert(off.data->type == 'i' && con.data->type == 'i' && off.comps == 1 && con.comps == 1, "cells are integers");
    vp_assert_eqi(con.data->v.size(), 2 * p.lines, "two points per line"); vp_assert_eqi(p.points, 2 * p.lines, "two points per line");
    for (int k = 0; k < p.lines; k++) { vp_assert_eq(off.data->v[k], 2 * k + 2, "end of the line"); for (int j = 0; j < 2; j++) vp_assert_eq(con.data->v[2 * k + j], 2 * k + j, "points of the line"); }
}
