package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

const modPath = "github.com/sahandsafizadeh/qeep"

const instances = `package tensor

func zzVerifTensorOf0(d float64, c *Config) (Tensor, error)         { return TensorOf(d, c) }
func zzVerifTensorOf1(d []float64, c *Config) (Tensor, error)       { return TensorOf(d, c) }
func zzVerifTensorOf2(d [][]float64, c *Config) (Tensor, error)     { return TensorOf(d, c) }
func zzVerifTensorOf3(d [][][]float64, c *Config) (Tensor, error)   { return TensorOf(d, c) }
func zzVerifTensorOf4(d [][][][]float64, c *Config) (Tensor, error) { return TensorOf(d, c) }
`

// load builds SSA for the repository's current working tree.
func load() (*Exec, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps,
		Dir: repoDir,
		Env: os.Environ(),
		// instances of the generic constructor; the file exists only here
		Overlay: map[string][]byte{repoDir + "/tensor/zz_verif_instances.go": []byte(instances)},
	}
	_ = strings.TrimSpace
	pkgs, err := packages.Load(cfg, "./...", "slices", "maps")
	if err != nil {
		return nil, err
	}
	if packages.PrintErrors(pkgs) > 0 {
		return nil, fmt.Errorf("packages do not build")
	}
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	ex := &Exec{prog: prog, pkgs: map[string]*ssa.Package{}, contracts: map[string]ContractFn{}, infos: map[*ssa.Function]*fnInfo{},
		called: map[string]bool{}, usedCon: map[string]bool{}, maxSteps: 20000000}
	for i, p := range ps {
		if p != nil {
			p.Build()
			ex.pkgs[strings.TrimPrefix(pkgs[i].PkgPath, modPath+"/")] = p
		}
	}
	et := types.NewNamed(types.NewTypeName(0, nil, "verifierError", nil), types.NewStruct(nil, nil), nil)
	et.AddMethod(types.NewFunc(0, nil, "Error", types.NewSignatureType(types.NewVar(0, nil, "e", et), nil, nil, nil,
		types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false)))
	errT = et
	theExec = ex
	return ex, nil
}

func (ex *Exec) typ(pkg, name string) types.Type {
	return ex.pkgs[pkg].Pkg.Scope().Lookup(name).Type()
}

func (ex *Exec) fn(pkg, name string) *ssa.Function {
	p := ex.pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (ex *Exec) method(t types.Type, name string) *ssa.Function {
	ms := ex.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return ex.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}
