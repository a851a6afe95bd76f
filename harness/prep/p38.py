"""Generates the registers of all configured value types from the template of the repository, plain and with scheduling
points, and the same face for all of them."""
import os, re, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gogp, instrument

repo, src = sys.argv[1], sys.argv[2]
there = repo + "/regable"
cfgs, section = {}, None
for line in open(there + "/reg.gpg"):
    line = line.strip()
    m = re.match(r"\[(.*)\]$", line)
    if m:
        section = cfgs.setdefault(m.group(1).strip().replace("GOGP_IGNORE_", ""), {})
    elif "=" in line and not line.startswith(("#", ";", "//")) and section is not None:
        k, v = line.split("=", 1)
        section[k.strip()] = v.strip()
# types the repository has no registers of
cfgs["float"] = dict(TYPENAME_L_SHORT="flt", LOCK_COMMENT="", REVERSE_COMMENT="//", NAME_INSTEAD="", NAME_COMMENT_B="", NAME_COMMENT_E="",
                     VALUE_TYPE="float64", DEFAULT_REG_CNT="5", TYPENAME_L="float", TYPENAME_U="Float")

dest = os.path.join(src, "tpl/regs")
os.makedirs(dest, exist_ok=True)
for f in os.listdir(there):
    if f.endswith(".go") and f != "reg.go" and not f.endswith("_test.go"):
        shutil.copy(os.path.join(there, f), dest)
for name, c in cfgs.items():
    with open(os.path.join(dest, "gp_%s_.go" % name), "w") as f:
        f.write(gogp.expand(open(there + "/reg.gp").read(), c, {"once": set(), "todo": []}))
instrument.make(src, src, "tpl/regs", "regs")
instrument.make(repo, src, "regable", "regable")  # the shipped registers are one more kind

FACE = '''package PKG

import (
	regs "IMPORT"
	ship "SHIPPED"
)

type Id interface {
	Raw() uint32
	Valid() bool
	Get() (interface{}, error)
	GetNoErr() interface{}
	Set(v interface{}) (interface{}, error)
	Reverse() (interface{}, error)
	Name() (string, error)
	Ids() (uint32, uint32)
	String() string
	Obj() Obj
}

type Obj interface {
	Id() Id
	Valid() bool
	Get() (interface{}, error)
	GetNoErr() interface{}
	Set(v interface{}) (interface{}, error)
	Reverse() (interface{}, error)
	Name() (string, error)
	String() string
}

type Reger interface {
	MaxReg(n uint32) (uint32, error)
	Reg(name string, v interface{}) (Id, error)
	MustReg(name string, v interface{}) Id
	RegO(name string, v interface{}) (Obj, error)
	MustRegO(name string, v interface{}) Obj
	String() string
}

type Kind struct {
	Name, Type          string
	Named, Settable, Rev bool
	Max                 int
	New                 func(name string) (Reger, error)
	MustNew             func(name string) Reger
	Id                  func(raw uint32) Id
	ShowAll             func() string
}

func FinishReg()                    { regs.FinishReg(); ship.FinishReg() }
func ShowAllRegs() string           { return regs.ShowAllRegs() + ship.ShowAllRegs() }
func MakeRegedId(a, b uint32) uint32 { return regs.MakeRegedId(a, b) }

var Kinds = []Kind{KINDS}

'''
KIND = '''
type id_U struct{ x regs.UId }
type obj_U struct{ x regs.UObj }
type rgr_U struct{ x *regs.UReger }

func (a id_U) Raw() uint32               { return uint32(a.x) }
func (a id_U) Valid() bool               { return a.x.Valid() }
func (a id_U) Get() (interface{}, error) { return a.x.Get() }
func (a id_U) GetNoErr() interface{}     { return a.x.GetNoErr() }
func (a id_U) Set(v interface{}) (interface{}, error) { SETID }
func (a id_U) Reverse() (interface{}, error) { REVID }
func (a id_U) Name() (string, error)     { NAMEID }
func (a id_U) Ids() (uint32, uint32)     { return a.x.Ids() }
func (a id_U) String() string            { return a.x.String() }
func (a id_U) Obj() Obj                  { return obj_U{a.x.Oject()} }

func (a obj_U) Id() Id                    { return id_U{a.x.Id()} }
func (a obj_U) Valid() bool               { return a.x.Valid() }
func (a obj_U) Get() (interface{}, error) { return a.x.Get() }
func (a obj_U) GetNoErr() interface{}     { return a.x.GetNoErr() }
func (a obj_U) Set(v interface{}) (interface{}, error) { SETID }
func (a obj_U) Reverse() (interface{}, error) { REVID }
func (a obj_U) Name() (string, error)     { NAMEID }
func (a obj_U) String() string            { return a.x.String() }

func (a rgr_U) MaxReg(n uint32) (uint32, error) { return a.x.MaxReg(n) }
func (a rgr_U) Reg(name string, v interface{}) (Id, error) { r, err := a.x.Reg(ARG); return id_U{r}, err }
func (a rgr_U) MustReg(name string, v interface{}) Id { return id_U{a.x.MustReg(ARG)} }
func (a rgr_U) RegO(name string, v interface{}) (Obj, error) { r, err := a.x.RegO(ARG); return obj_U{r}, err }
func (a rgr_U) MustRegO(name string, v interface{}) Obj { return obj_U{a.x.MustRegO(ARG)} }
func (a rgr_U) String() string { return a.x.String() }
'''
for pkg, path, shipped in (("regface", "tpl/regs", "github.com/vipally/gx/regable"), ("regfacei", "instr/regs", "instr/regable")):
    kinds, body = "", ""
    for name, c in list(cfgs.items()) + [("shipped", dict(cfgs["uint32"]))]:
        named, settable, rev = not c["NAME_COMMENT_B"], not c["LOCK_COMMENT"], not c["REVERSE_COMMENT"]
        typ, u = c["VALUE_TYPE"], c["TYPENAME_U"]
        cast = "v" if typ == "interface{}" else "v.(%s)" % typ
        k = KIND.replace("SETID", "return a.x.Set(%s)" % cast if settable else 'panic("no Set")')
        k = k.replace("REVID", "return a.x.Reverse()" if rev else 'panic("no Reverse")')
        k = k.replace("NAMEID", "return a.x.Name()" if named else 'panic("no Name")')
        k = k.replace("ARG", "name, " + cast if named else cast)
        adapter, u = (u, "regs." + u) if name != "shipped" else ("Shipped", "ship." + u)
        k = re.sub(r"_U\b", "_" + adapter, k)
        body += re.sub(r"regs\.U", u, k)
        fill = lambda text: text.replace("_A", "_" + adapter).replace("F_", u.split(".")[0] + ".").replace("U_", u.split(".")[1])
        kinds += fill('''
	{"%s", "%s", %s, %s, %s, %s, func(n string) (Reger, error) { r, err := F_NewU_Reger(n); return rgr_A{r}, err },
		func(n string) Reger { return rgr_A{F_MustNewU_Reger(n)} }, func(raw uint32) Id { return id_A{F_U_Id(raw)} }, F_ShowAllU_Regers},
''') % (name, typ, *(str(x).lower() for x in (named, settable, rev)), c["DEFAULT_REG_CNT"])
    d = os.path.join(src, "tpl", pkg)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "face.go"), "w") as f:
        f.write(FACE.replace("PKG", pkg).replace("IMPORT", path).replace("SHIPPED", shipped).replace("KINDS", kinds) + body)
