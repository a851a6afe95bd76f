"""Generates containers for other types than the shipped ones from the templates of the repository."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gogp

repo, src = sys.argv[1], sys.argv[2]
dirs = [repo + "/stl/gp", repo + "/regable/gp"]
stl = "sort_slice tree stack deque queue list slist heap".split()


def kit(name, ext, typ, prefix, **more):
    base = dict(PACKAGE="package " + name, VALUE_TYPE=typ, KEY_TYPE=typ, GLOBAL_NAME_PREFIX=prefix, GOGP_SectionSortSlice="node", **more)
    base["sections"] = {"node": dict(GOGP_HasCmpFunc="true", VALUE_TYPE="*%sTreeNode" % prefix, GLOBAL_NAME_PREFIX=prefix + "TreeNode")}
    cfgs = {t: {k: v for k, v in base.items() if k != "KEY_TYPE"} for t in stl}
    gogp.package(dirs, ext, cfgs, os.path.join(src, "tpl", name))


for ext, more in ((".gp", ""), (".gp.go", "_go")):  # the templates come in two forms
    kit("text" + more, ext, "string", "Text")
    kit("recs" + more, ext, "Rec", "Rec", GOGP_HasCmpFunc="true", GOGP_DefaultCmpType="Greater", GOGP_ImproveSTL="true")
    with open(os.path.join(src, "tpl/recs%s/rec.go" % more), "w") as f:
        f.write("""package recs%s

type Rec struct {
	K   int
	Tag string
}

func (a Rec) Less(b Rec) bool { return a.K < b.K }
""" % more)
    m = dict(PACKAGE="package mapping" + more, VALUE_TYPE="string", KEY_TYPE="int", GLOBAL_NAME_PREFIX="Dir", sections={})
    gogp.package(dirs, ext, {"mapping": m}, os.path.join(src, "tpl/mapping" + more))
