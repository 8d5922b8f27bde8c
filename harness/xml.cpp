// Metadata kept as XML (properties, comments) reads back as it was set.
#include "meas.h"
#include "mdf/cccomment.h"
#include "mdf/cncomment.h"
#include "mdf/evcomment.h"
#include "mdf/fhcomment.h"
#include "mdf/hdcomment.h"
#include "mdf/ievent.h"
#include "mdf/ifilehistory.h"
#include "mdf/imetadata.h"
#include "mdf/isourceinformation.h"
#include "mdf/sicomment.h"
namespace {
// every text of one or two printable characters (blanks at the ends are not
// kept by design), a text with an inner blank that looks like it holds an entity, and every two byte UTF-8 letter
std::string text(const char* name, size_t kinds = 4) {
  const size_t kind = sym_choose(kinds, name);
  if (kind == 3) {
    const uint8_t a = sym<uint8_t>(name), b = sym<uint8_t>(name);
    sym_assume(a >= 0xC2 && a <= 0xDF && b >= 0x80 && b <= 0xBF);
    return std::string{(char)a, (char)b};
  }
  auto v = sym_vec(kind == 0 ? 1 : 2, name);
  for (auto x : v) sym_assume(x > ' ' && x < 0x7f);
  std::string s(v.begin(), v.end());
  if (kind == 2) { s.insert(1, " &"); s += "t;"; }
  return s;
}
// every number of up to n decimal digits
uint64_t decimal(size_t n, const char* name) {
  const size_t k = 1 + sym_choose(n, name);
  uint64_t r = 0;
  for (size_t i = 0; i < k; i++) {
    const uint8_t d = sym<uint8_t>(name);
    r = r * 10 + (i > 0 || k == 1 ? d % 10u : 1 + d % 9u);  // structurally a digit
  }
  return r;
}
// n texts, one of them symbolic, the others with the characters XML reserves
std::vector<std::string> texts(size_t n, bool symbolic = true, size_t kinds = 4) {
  static const char* kOther[] = {"a<b &amp;", "&", "'x\"", "&lt;z>"};
  const size_t k = symbolic ? sym_choose(n, "symbolic text") : n;
  std::vector<std::string> r;
  for (size_t i = 0; i < n; i++) r.push_back(i == k ? text("text", kinds) : std::string(kOther[i % 4]));
  return r;
}
// values whose decimal text is symbolic (every integer up to 9 digits) and some fractions
double number(const char* name) {
  static const double kSome[] = {0.1, -1.0 / 3.0, 1e-9, 6.02214076e23, 2.2250738585072014e-308, 1.7976931348623157e308};
  const size_t k = sym_choose(7, name);
  if (k < 6) return kSome[k];
  const int64_t n = (int64_t)decimal(7, name);
  return (double)(sym_choose(2, name) ? -n : n);
}
struct Md4Block : IMetaData {
  std::string x;
  explicit Md4Block(const char* t) : x(t) {}
  int64_t Index() const override { return 0; }
  std::string BlockType() const override { return "MD"; }
  void XmlSnippet(const std::string& t) override { x = t; }
  const std::string& XmlSnippet() const override { return x; }
};
bool same(double a, double b) { return dbits(a) == dbits(b) || a == b; }
uint64_t small(const char* name) { return decimal(3, name); }
}  // namespace
HARNESS(h_md_props) {
  sym_expect("done");
  Md4Block md("<HDcomment><TX>t</TX></HDcomment>");
  auto tx = texts(3);
  auto &a = tx[0], &b = tx[1], &c = tx[2];
  const size_t order = sym_choose(3, "order");
  if (order == 0) { md.StringProperty("TX", a); md.StringProperty("bb", b); }
  if (order == 1) { md.StringProperty("bb", b); md.StringProperty("TX", a); }
  if (order == 2) { md.StringProperty("TX", c); md.StringProperty("bb", c); md.StringProperty("TX", a); md.StringProperty("bb", b); }
  sym_check(md.StringProperty("TX") == a, "first property");
  sym_check(md.StringProperty("bb") == b, "second property");
  sym_check(md.StringProperty("cc").empty(), "no third property");
  sym_cover("done");
}
HARNESS(h_md_float) {
  sym_expect("done");
  Md4Block md("<EVcomment><TX>t</TX></EVcomment>");
  const double a = number("a"), b = (double)decimal(3, "b");
  if (sym_choose(2, "again")) md.FloatProperty("pre", b);
  md.FloatProperty("pre", a);
  md.FloatProperty("post", b);
  sym_check(same(md.FloatProperty("pre"), a), "first number");
  sym_check(same(md.FloatProperty("post"), b), "second number");
  sym_check(md.StringProperty("TX") == "t", "text kept");
  sym_cover("done");
}
namespace {
struct Tag {
  std::string f[6];  // value, description, unit, unit reference, type, language
  bool ro = false;
  int ci = -1;
};
void fill(ETag& e, const Tag& t) {
  e.Value(t.f[0]); e.Description(t.f[1]); e.Unit(t.f[2]); e.UnitRef(t.f[3]); e.Type(t.f[4]); e.Language(t.f[5]);
  e.ReadOnly(t.ro); e.CreatorIndex(t.ci);
}
void same_tag(const ETag& e, const Tag& t, const char* name) {
  sym_check(e.Name() == name, "name of a common property");
  sym_check(e.Value<std::string>() == t.f[0], "value of a common property");
  sym_check(e.Description() == t.f[1] && e.Unit() == t.f[2] && e.UnitRef() == t.f[3] && e.Type() == t.f[4] && e.Language() == t.f[5], "text attributes of a common property");
  sym_check(e.ReadOnly() == t.ro && e.CreatorIndex() == t.ci, "flags of a common property");
}
Tag sym_tag(const char* name) {
  Tag t;
  const size_t which = sym_choose(7, "symbolic field");
  for (size_t i = 0; i < 6; i++) t.f[i] = i == which ? text(name) : std::string("k") + (char)('0' + i);
  if (which == 6) { t.ro = sym_choose(2, "ro"); t.ci = sym_choose(2, "ci") ? (int)small("ci") : -1; for (auto& f : t.f) f.clear(); t.f[0] = "v"; }
  return t;
}
}  // namespace
HARNESS(h_md_tag) {
  sym_expect("done");
  Md4Block md("<HDcomment><TX>t</TX></HDcomment>");
  Tag t = sym_tag("tag"), o, old;
  o.f[0] = "other"; o.f[1] = "d"; o.ci = 3;
  for (size_t i = 0; i < 6; i++) old.f[i] = std::string("o") + (char)('0' + i);
  old.ro = t.ro; old.ci = t.ci < 0 ? -1 : 7;
  if (t.f[1].empty()) for (size_t i = 1; i < 6; i++) old.f[i].clear();
  ETag e, e2, e0;
  e.Name("n"); fill(e, t);
  e2.Name("m"); fill(e2, o);
  e0.Name("n"); fill(e0, old);
  const size_t order = sym_choose(4, "order");
  if (order == 0) { md.CommonProperty(e); md.CommonProperty(e2); }
  if (order == 1) { md.CommonProperty(e2); md.CommonProperty(e); }
  if (order == 2) { md.CommonProperty(e0); md.CommonProperty(e2); md.CommonProperty(e); }
  if (order == 3) { md.CommonProperties({e, e2}); }
  same_tag(md.CommonProperty("n"), t, "n");
  same_tag(md.CommonProperty("m"), o, "m");
  auto list = md.CommonProperties();
  sym_check(list.size() == 2, "number of common properties");
  const bool first = order != 1;
  same_tag(list[first ? 0 : 1], t, "n");
  same_tag(list[first ? 1 : 0], o, "m");
  sym_check(md.StringProperty("TX") == "t", "text kept");
  sym_cover("done");
}
HARNESS(h_md_tree) {
  sym_expect("done");
  Md4Block md("<HDcomment><TX>t</TX></HDcomment>");
  auto tx = texts(3);
  auto &v = tx[0], &d = tx[1], &w = tx[2];
  ETag leaf; leaf.Name("leaf"); leaf.Value(v); leaf.Unit("u");
  ETag in; in.Name("in"); in.Value(w);
  ETag sub; sub.Name("sub"); sub.AddTag(in);
  ETag tree; tree.Name("tree"); tree.Description(d);
  const bool two = sym_choose(2, "sub tree");
  tree.AddTag(leaf);
  if (two) tree.AddTag(sub);
  md.CommonProperty(tree);
  ETag r = md.CommonProperty("tree");
  sym_check(r.Name() == "tree" && r.Description() == d, "tree name and description");
  sym_check(r.TreeList().size() == (two ? 2u : 1u), "number of tags in the tree");
  const auto& l = r.TreeList()[0];
  sym_check(l.Name() == "leaf" && l.Value<std::string>() == v && l.Unit() == "u" && l.TreeList().empty(), "tag in the tree");
  if (two) {
    const auto& s = r.TreeList()[1];
    sym_check(s.Name() == "sub" && s.TreeList().size() == 1 && s.TreeList()[0].Name() == "in" && s.TreeList()[0].Value<std::string>() == w, "nested tree");
  }
  sym_cover("done");
}
HARNESS(h_etag_value) {
  sym_expect("done");
  ETag e;
  const double d = number("number");
  e.Value(d);
  sym_check(same(e.Value<double>(), d), "floating point value of a tag");
  const int64_t i0 = (int64_t)decimal(8, "integer");
  const int64_t i = sym_choose(2, "sign") ? -i0 : i0;
  e.Value(i);
  sym_check(e.Value<int64_t>() == i, "integer value of a tag");
  const bool b = sym_choose(2, "bool");
  e.Value(b);
  sym_check(e.Value<bool>() == b, "boolean value of a tag");
  const auto t = (ETagDataType)sym_choose(8, "type");
  e.DataType(t);
  sym_check(e.DataType() == t, "data type of a tag");
  sym_cover("done");
}
HARNESS(h_property) {
  sym_expect("done");
  const size_t k = sym_choose(6, "case");
  FhComment c("t"), r;
  MdProperty p("n", "v");
  if (k == 0) {
    auto tx = texts(4);
    auto &v = tx[0], &d = tx[1], &u = tx[2], &ur = tx[3];
    p.Value(v); p.Description(d); p.Unit(u); p.UnitReference(ur);
    c.AddProperty(p); c.AddProperty("m", "mm");
    r.FromXml(c.ToXml());
    auto* q = r.GetProperty("n");
    sym_check(q && q->Name() == "n" && q->Value<std::string>() == v, "value of a property");
    sym_check(q->Description() == d && q->Unit() == u && q->UnitReference() == ur, "text attributes of a property");
    sym_check(!q->ReadOnly() && q->DataType() == MdDataType::MdString, "default attributes of a property");
    sym_check(r.GetPropertyValue<std::string>("m") == "mm" && r.Properties().size() == 2, "other properties");
  } else if (k == 1) {
    const bool num = sym_choose(2, "symbolic numbers");
    const auto ty = (MdDataType)sym_choose(8, "type");
    const bool ro = sym_choose(2, "ro");
    const uint64_t ci = num ? small("ci") : 7;
    auto la = num ? "en" : text("language", 2);
    p.DataType(ty); p.ReadOnly(ro); p.HistoryIndex(ci); p.Language(la);
    c.AddProperty(p);
    r.FromXml(c.ToXml());
    auto* q = r.GetProperty("n");
    sym_check(q && q->DataType() == ty && q->ReadOnly() == ro && q->HistoryIndex() == ci && q->Language() == la, "attributes of a property");
    sym_check(q->CustomAttributes().empty(), "no invented attributes");
  } else if (k == 2) {
    const double d = number("number");
    p.DataType(MdDataType::MdFloat);
    p.Value(d);
    c.AddProperty(p);
    r.FromXml(c.ToXml());
    sym_check(same(r.GetPropertyValue<double>("n"), d), "floating point property");
  } else if (k == 3) {
    const bool hex = sym_choose(2, "hex");
    const uint64_t v = (hex ? sym_range<uint64_t>(0, 0xFFFF, "integer") : decimal(8, "integer"));
    p.DataType(hex ? MdDataType::MdHex : MdDataType::MdInteger);
    p.Value(v);
    sym_check(p.Value<uint64_t>() == v, "integer property before storing");
    c.AddProperty(p);
    r.FromXml(c.ToXml());
    sym_check(r.GetPropertyValue<uint64_t>("n") == v, "integer property");
  } else if (k == 4) {
    const bool b = sym_choose(2, "bool");
    p.DataType(MdDataType::MdBoolean);
    p.Value(b);
    c.AddProperty(p);
    r.FromXml(c.ToXml());
    sym_check(r.GetPropertyValue<bool>("n") == b, "boolean property");
  } else {
    auto v = text("custom", 2);
    p.AddCustomAttribute("own", v);
    c.AddProperty(p);
    r.FromXml(c.ToXml());
    auto* q = r.GetProperty("n");
    sym_check(q && q->CustomAttributes().size() == 1 && q->CustomAttributes().at("own") == v, "custom attribute");
    // a second storing uses the values set last
    MdProperty p2(*q);
    p2.Description("changed");
    FhComment c2("t"), r2;
    c2.AddProperty(p2);
    r2.FromXml(c2.ToXml());
    MdProperty p3(*r2.GetProperty("n"));
    p3.Description("again");
    FhComment c3("t"), r3;
    c3.AddProperty(p3);
    r3.FromXml(c3.ToXml());
    sym_check(r3.GetProperty("n")->Description() == "again", "an attribute changed after reading");
  }
  sym_cover("done");
}
HARNESS(h_lists) {
  sym_expect("done");
  CnComment c("t"), r;
  auto tx = texts(3);
  auto &v = tx[0], &d = tx[1], &e = tx[2];
  MdList tree, list, inner;
  tree.Name("tree"); tree.Description(d); tree.AddProperty({"a", v});
  inner.Name("inner"); inner.AddProperty({"i", e}); tree.AddTree(inner);
  list.Name("list"); list.AddProperty({"b", e}); list.AddProperty({"c", "cc"});
  MdEnumerate en; en.Name("en"); en.AddValue(MdString(e)); en.AddValue(MdString("z"));
  c.AddTree(tree); c.AddList(list); c.AddEnumerate(en);
  r.FromXml(c.ToXml());
  sym_check(r.Trees().size() == 1 && r.Lists().size() == 1 && r.Enumerates().size() == 1 && r.Properties().empty(), "numbers of lists");
  auto& t = r.Trees().at("tree");
  sym_check(t.Name() == "tree" && t.Description() == d && t.Properties().at("a").Value<std::string>() == v, "tree");
  sym_check(t.Trees().size() == 1 && t.Trees().at("inner").Properties().at("i").Value<std::string>() == e, "nested tree");
  auto& l = r.Lists().at("list");
  sym_check(l.Properties().size() == 2 && l.Properties().at("b").Value<std::string>() == e && l.Properties().at("c").Value<std::string>() == "cc", "list");
  auto& vl = r.Enumerates().at("en").ValueList();
  sym_check(vl.size() == 2 && vl[0].Text() == e && vl[1].Text() == "z", "enumeration");
  sym_check(r.Comment().Text() == "t", "comment text");
  sym_cover("done");
}
HARNESS(h_number) {
  sym_expect("done");
  EvComment c("t"), r;
  const size_t k = sym_choose(4, "case");
  if (k == 0) {
    const double d = number("value");
    MdNumber n(d);
    sym_check(same(n.Number<double>(), d), "number before storing");
    MdNumber m; m.Number(d);
    sym_check(same(m.Number<double>(), d), "number set before storing");
    c.PreTriggerInterval(n);
    r.FromXml(c.ToXml());
    sym_check(same(r.PreTriggerInterval().Number<double>(), d), "number");
    sym_check(!r.PostTriggerInterval().IsActive() && !r.Timeout().IsActive(), "only the number that was set");
  } else if (k == 1) {
    const bool hex = sym_choose(2, "hex");
    const uint64_t v = hex ? sym_range<uint64_t>(0, 0xFFFF, "value") : decimal(8, "value");
    MdNumber n(v, hex ? MdDataType::MdHex : MdDataType::MdInteger);
    sym_check(n.Number<uint64_t>() == v, "integer before storing");
    c.PostTriggerInterval(n);
    r.FromXml(c.ToXml());
    sym_check(r.PostTriggerInterval().Number<uint64_t>() == v && !r.PreTriggerInterval().IsActive(), "integer");
  } else if (k == 2) {
    MdNumber n(1.0);
    const bool num = sym_choose(2, "symbolic numbers");
    const double a = num ? number("limit") : 1.5;
    const size_t f = sym_choose(3, "field");
    if (f == 0) n.Min(a); else if (f == 1) n.Max(a); else n.Average(a);
    auto u = num ? "km" : text("unit", 2);
    n.Unit(u);
    c.Timeout(n);
    r.FromXml(c.ToXml());
    auto& q = r.Timeout();
    sym_check(q.Min().has_value() == (f == 0) && q.Max().has_value() == (f == 1) && q.Average().has_value() == (f == 2), "limits present");
    sym_check(same(f == 0 ? *q.Min() : f == 1 ? *q.Max() : *q.Average(), a), "limit");
    sym_check(q.Unit() == u, "unit");
  } else {
    MdNumber n(1.0);
    const size_t f = sym_choose(3, "field");
    const uint64_t bc = f == 0 ? small("byte count") : 8, bm = f == 1 ? sym_range<uint64_t>(0, 0xFFFF, "bit mask") : 0x80FF, ci = f == 2 ? small("ci") : 12;
    const bool be = f > 0 && sym_choose(2, "big endian"), tr = sym_choose(2, "triggered");
    n.ByteCount(bc); n.BitMask(bm); n.HistoryIndex(ci); n.UnitRef("ref"); n.Triggered(tr);
    n.ByteOrder(be ? MdByteOrder::BigEndian : MdByteOrder::LittleEndian);
    c.Timeout(n);
    r.FromXml(c.ToXml());
    auto& q = r.Timeout();
    sym_check(q.ByteCount() == bc && q.BitMask() == bm && q.HistoryIndex() == ci && q.UnitRef() == "ref", "number attributes");
    sym_check(q.Triggered() == tr && (q.ByteOrder() == MdByteOrder::BigEndian) == be, "number flags");
  }
  sym_check(r.Comment().Text() == "t", "comment text");
  sym_cover("done");
}
HARNESS(h_formula) {
  sym_expect("done");
  EvComment c("t"), r;
  const size_t k = sym_choose(4, "case");
  auto tx = texts(3, k != 3);
  auto &s = tx[0], &v = tx[1], &x = tx[2];
  MdSyntax sy; sy.Syntax(s); sy.Version(v);
  c.Formula().Syntax(sy);
  const uint64_t i0 = k == 3 ? small("index") : 1, i1 = k == 3 ? small("index") : 20;
  const bool raw = k == 1 && sym_choose(2, "raw");
  if (k == 0) { MdSyntax cu; cu.Syntax(x); cu.Source("src"); c.Formula().AddCustomSyntax(cu); }
  if (k == 1) { MdVariable var; var.Variable("X"); var.CnBlockName(x); var.CgSourcePath("gp"); var.CnSourceName("cs"); var.Raw(raw); c.Formula().AddVariable(var); }
  if (k >= 2) { MdVariable var; var.Variable(x); var.AddArrayIndex(i0); var.AddArrayIndex(i1); c.Formula().AddVariable(var); }
  r.FromXml(c.ToXml());
  auto& f = r.Formula();
  sym_check(f.Syntax().Syntax() == s && f.Syntax().Version() == v, "formula");
  sym_check(f.CustomSyntaxes().size() == (k == 0) && f.Variables().size() == (k != 0), "parts of the formula");
  if (k == 0) sym_check(f.CustomSyntaxes().begin()->second.Syntax() == x && f.CustomSyntaxes().begin()->second.Source() == "src", "custom syntax");
  if (k == 1) {
    auto& q = f.Variables().at("X");
    sym_check(q.CnBlockName() == x && q.CgSourcePath() == "gp" && q.CnSourceName() == "cs" && q.Raw() == raw && q.CgBlockName().empty(), "variable");
  }
  if (k >= 2) {
    auto& q = f.Variables().begin()->second;
    sym_check(q.Variable() == x && q.ArrayIndexes().size() == 2, "indexed variable");
    sym_check(q.ArrayIndexes()[0] == i0 && q.ArrayIndexes()[1] == i1, "indexes of the variable");
  }
  sym_cover("done");
}
HARNESS(h_names) {
  sym_expect("done");
  SiComment c("t"), r;
  auto tx = texts(3);
  auto &x = tx[0], &y = tx[1], &z = tx[2];
  const size_t k = sym_choose(4, "case");
  if (k == 0) { c.Names().AddAlternativeName(x); c.Names().AddAlternativeName(y); c.Path().AddAlternativeName(z); }
  if (k == 1) { c.Bus().DefaultName(x); c.Bus().AddDisplayName(MdString(y)); c.Bus().AddVendor(MdString(z)); }
  if (k == 2) { c.Path().DefaultName(x); c.Protocol(MdString(y)); }
  if (k == 3) { c.Names().AddDescription(MdString(x, 5, "de")); c.Names().Language(y); }
  r.FromXml(c.ToXml());
  sym_check(r.Comment().Text() == "t", "comment text");
  if (k == 0) {
    sym_check(r.Names().AlternativeNames().size() == 2 && r.Path().AlternativeNames().size() == 1 && !r.Bus().IsActive(), "numbers of names");
    sym_check(r.Names().AlternativeNames()[0].Text() == x && r.Names().AlternativeNames()[1].Text() == y && r.Path().AlternativeNames()[0].Text() == z, "alternative names");
  }
  if (k == 1) {
    sym_check(r.Bus().DefaultName() == x && r.Bus().DisplayNames().size() == 1 && r.Bus().Vendors().size() == 1, "names of the bus");
    sym_check(r.Bus().DisplayNames()[0].Text() == y && r.Bus().Vendors()[0].Text() == z && r.Bus().AlternativeNames().empty(), "display name and vendor");
  }
  if (k == 2) sym_check(r.Path().DefaultName() == x && r.Protocol().Text() == y, "default name and protocol");
  if (k == 3) {
    auto& d = r.Names().Descriptions();
    sym_check(d.size() == 1 && d[0].Text() == x && d[0].HistoryIndex() == 5 && d[0].Language() == "de" && r.Names().Language() == y, "description");
  }
  sym_cover("done");
}
HARNESS(h_comments) {
  sym_expect("done");
  const size_t k = sym_choose(5, "case");
  const bool num = (k == 0 || k == 2) && sym_choose(2, "symbolic numbers");
  auto tx = texts(3, !num);
  auto &x = tx[0], &y = tx[1], &z = tx[2];
  if (k == 0) {
    HdComment c(x), r;
    c.Author(y); c.Department("dep"); c.Project(z); c.Subject("sub"); c.MeasurementUuid("mu"); c.RecorderUuid("ru");
    const int64_t fi = num ? (int64_t)decimal(5, "index") : 42;
    c.RecorderFileIndex(fi);
    r.FromXml(c.ToXml());
    sym_check(r.Comment().Text() == x && r.Author() == y && r.Department() == "dep" && r.Project() == z, "header comment");
    sym_check(r.Subject() == "sub" && r.MeasurementUuid() == "mu" && r.RecorderUuid() == "ru" && r.RecorderFileIndex() == fi, "header identities");
  } else if (k == 1) {
    HdComment c("t"), r;
    c.TimeSource(MdString(x)); c.AddConstant(MdString(y), z); c.AddConstant(MdString("PIE"), "3.14");
    sym_assume(y != "PIE");
    r.FromXml(c.ToXml());
    sym_check(r.TimeSource().Text() == x && r.Constants().size() == 2, "time source and number of constants");
    auto it = r.Constants().find(MdString(y));
    sym_check(it != r.Constants().end() && it->second == z, "constant");
    sym_check(r.Constants().find(MdString("PIE"))->second == "3.14", "other constant");
  } else if (k >= 2) {
    CnComment c(x), r;
    const auto mono = num ? (MdMonotony)sym_choose(7, "monotony") : MdMonotony::MonDecrease;
    MdString ln(y); const uint64_t off = num ? small("offset") : 7; ln.Offset(off);
    const uint64_t ad = num ? sym_range<uint64_t>(0, 0xFFF, "address") : 0xABCDEF0123ull;
    c.LinkerName(ln); c.LinkerAddress(MdNumber(ad, MdDataType::MdHex)); c.AxisMonotony(mono); c.Address(MdNumber(7, MdDataType::MdHex));
    c.Names().AddAlternativeName(z);
    r.FromXml(c.ToXml());
    sym_check(r.Comment().Text() == x && r.LinkerName().Text() == y && r.LinkerName().Offset() == off, "linker name");
    sym_check(r.LinkerAddress().Number<uint64_t>() == ad && r.Address().Number<uint64_t>() == 7, "addresses");
    sym_check(r.AxisMonotony() == mono && r.Names().AlternativeNames().size() == 1 && r.Names().AlternativeNames()[0].Text() == z, "monotony and names");
  } else if (k == 3) {
    FhComment c(x), r;
    c.ToolId(MdString(y)); c.ToolVendor(MdString(z)); c.ToolVersion(MdString("1.0")); c.UserName(MdString("user"));
    c.AddProperty("p", "q");
    r.FromXml(c.ToXml());
    sym_check(r.Comment().Text() == x && r.ToolId().Text() == y && r.ToolVendor().Text() == z && r.ToolVersion().Text() == "1.0" && r.UserName().Text() == "user", "file history comment");
    sym_check(r.GetPropertyValue<std::string>("p") == "q", "property of the comment");
  } else {
    CcComment c(x), r;
    c.Names().AddAlternativeName(y);
    MdSyntax sy; sy.Syntax(z);
    c.Formula().Syntax(sy);
    r.FromXml(c.ToXml());
    sym_check(r.Comment().Text() == x && r.Names().AlternativeNames().size() == 1 && r.Names().AlternativeNames()[0].Text() == y && r.Formula().Syntax().Syntax() == z, "conversion comment");
  }
  sym_cover("done");
}
HARNESS(h_file_texts) {
  sym_expect("done");
  auto file = std::make_shared<MemFile>();
  const size_t k = sym_choose(4, "case");
  auto tx = texts(3, k != 3, TIER ? 4 : 2);
  auto &x = tx[0], &y = tx[1], &z = tx[2];
  // plain texts are told from XML by their first character
  if (k == 1) for (auto* s : {&x, &y, &z}) sym_assume((*s)[0] != '<');
  const double pre = k == 3 ? number("pre") : 0.25;
  {
    auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic);
    w->Init(file);
    auto* hd = w->Header();
    auto* dg = w->CreateDataGroup();
    auto* cg = MdfWriter::CreateChannelGroup(dg);
    add_master(cg, false);
    auto* c = add_channel(cg, "x", ChannelDataType::UnsignedIntegerLe, 4);
    if (k == 0) { hd->Author("old"); hd->Author(x); hd->Department(y); hd->Project(z); hd->Subject("s"); hd->Description("d"); hd->MeasurementId("m"); hd->RecorderId("r"); hd->RecorderIndex(12); }
    if (k == 1) { c->Description(x); c->Unit(y); cg->Name(z); cg->Description(y); dg->Description(x); }
    if (k >= 2) { auto* e = hd->CreateEvent(); e->Description(x); e->PreTrig(pre); e->PostTrig(2); HdComment hc(y); hc.Author(z); hd->SetHdComment(hc); }
    sym_check(w->InitMeasurement(), "measurement initialised");
    w->StartMeasurement(kStart);
    c->SetChannelValue((uint32_t)7);
    w->SaveSample(*dg, *cg, kStart);
    w->StopMeasurement(kStart + kSec);
    sym_check(w->FinalizeMeasurement(), "measurement finalised");
  }
  MdfReader r(file);
  sym_check(r.IsOk() && r.ReadEverythingButData(), "the file can be read");
  auto* hd = const_cast<IHeader*>(r.GetHeader());
  auto* dg = r.GetDataGroup(0);
  auto* cg = group_of(dg, 0);
  auto* c = cg->GetChannel("x");
  if (k == 0) {
    sym_check(hd->Author() == x && hd->Department() == y && hd->Project() == z && hd->Subject() == "s" && hd->Description() == "d", "header texts");
    sym_check(hd->MeasurementId() == "m" && hd->RecorderId() == "r" && hd->RecorderIndex() == 12, "header identities");
  }
  if (k == 1) {
    sym_check(c->Description() == x && c->Unit() == y && cg->Name() == z, "channel texts");
    sym_check(cg->Description() == y && dg->Description() == x, "group texts");
  }
  if (k >= 2) {
    sym_check(hd->Events().size() == 1 && hd->Events()[0]->Description() == x, "event description");
    sym_check(same(hd->Events()[0]->PreTrig(), pre) && hd->Events()[0]->PostTrig() == 2, "event intervals");
    HdComment hc;
    hd->GetHdComment(hc);
    sym_check(hc.Comment().Text() == y && hc.Author() == z && hd->Author() == z, "header comment");
  }
  sym_cover("done");
}
