// A stand-in for the part of VTK that cafes/io/vtk.hpp uses (VTK is not installed here): the data model (extents, points,
// arrays, attributes, reference counts) and writers that write it as plain text under the given file name.
#pragma once
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
// vtkIOStream.h of VTK 5 to 8 does the same
using std::endl;
using std::ios;
using std::ofstream;
#ifndef VTK_MAJOR_VERSION
#define VTK_MAJOR_VERSION 8
#endif

namespace vtkstub
{
    inline std::vector<std::string> &misuse()
    {
        static std::vector<std::string> m;
        return m;
    }
    inline void fail(std::string const &s) { misuse().push_back(s); }
} // namespace vtkstub

struct vtkObject
{
    int refs = 1;
    virtual ~vtkObject() {}
    void Register() { ++refs; }
    void Delete()
    {
        if (--refs == 0)
            delete this;
    }
    void UnRegister() { Delete(); }
};
template<class T>
struct vtkSmartPointer
{
    T *p = nullptr;
    vtkSmartPointer() = default;
    vtkSmartPointer(T *q) : p(q)
    {
        if (p)
            p->Register();
    }
    vtkSmartPointer(vtkSmartPointer const &o) : vtkSmartPointer(o.p) {}
    vtkSmartPointer &operator=(vtkSmartPointer const &o)
    {
        if (o.p)
            o.p->Register();
        if (p)
            p->UnRegister();
        p = o.p;
        return *this;
    }
    ~vtkSmartPointer()
    {
        if (p)
            p->UnRegister();
    }
    static vtkSmartPointer New()
    {
        vtkSmartPointer s;
        s.p = T::New();
        return s;
    }
    T *operator->() const { return p; }
    T &operator*() const { return *p; }
    operator T *() const { return p; }
    T *Get() const { return p; }
    T *GetPointer() const { return p; }
};
#define VTKSTUB_NEW(T) \
    static T *New() { return new T; }

struct vtkDataArray : vtkObject
{
    std::string name;
    int comps = 1;
    std::vector<double> v;
    bool single = false; // stored in single precision
    VTKSTUB_NEW(vtkDataArray)
    double keep(double x) const { return single ? static_cast<double>(static_cast<float>(x)) : x; }
    void SetName(char const *s) { name = s; }
    char const *GetName() const { return name.c_str(); }
    void SetNumberOfComponents(int n) { comps = n; }
    int GetNumberOfComponents() const { return comps; }
    void SetNumberOfTuples(long n) { v.resize(n * comps, std::nan("")); }
    void SetNumberOfValues(long n) { v.resize(n, std::nan("")); }
    void Allocate(long, long = 0) {}
    long GetNumberOfTuples() const { return v.size() / comps; }
    long InsertNextValue(double x)
    {
        v.push_back(keep(x));
        return v.size() - 1;
    }
    void SetValue(long i, double x)
    {
        if (i < 0 || i >= static_cast<long>(v.size()))
            return vtkstub::fail("SetValue out of range");
        v[i] = keep(x);
    }
    void InsertValue(long i, double x)
    {
        if (i >= static_cast<long>(v.size()))
            v.resize(i + 1, std::nan(""));
        v[i] = keep(x);
    }
    double GetValue(long i) const { return v[i]; }
    bool tuple(int n)
    {
        if (n != comps)
            vtkstub::fail("a tuple of " + std::to_string(n) + " values for an array of " + std::to_string(comps) + " components");
        return n == comps;
    }
    void put(long i, std::vector<double> const &x, bool grow)
    {
        if (!tuple(x.size()))
            return;
        if (i < 0 || (!grow && (i + 1) * comps > static_cast<long>(v.size())))
            return vtkstub::fail("SetTuple out of range");
        if ((i + 1) * comps > static_cast<long>(v.size()))
            v.resize((i + 1) * comps, std::nan(""));
        for (int k = 0; k < comps; ++k)
            v[i * comps + k] = keep(x[k]);
    }
    long next(std::vector<double> const &x)
    {
        put(GetNumberOfTuples(), x, true);
        return GetNumberOfTuples() - 1;
    }
    long InsertNextTuple1(double a) { return next({a}); }
    long InsertNextTuple2(double a, double b) { return next({a, b}); }
    long InsertNextTuple3(double a, double b, double c) { return next({a, b, c}); }
    long InsertNextTuple(double const *x) { return next(std::vector<double>(x, x + comps)); }
    void SetTuple1(long i, double a) { put(i, {a}, false); }
    void SetTuple2(long i, double a, double b) { put(i, {a, b}, false); }
    void SetTuple3(long i, double a, double b, double c) { put(i, {a, b, c}, false); }
    void SetTuple(long i, double const *x) { put(i, std::vector<double>(x, x + comps), false); }
    void InsertTuple1(long i, double a) { put(i, {a}, true); }
    void InsertTuple2(long i, double a, double b) { put(i, {a, b}, true); }
    void InsertTuple3(long i, double a, double b, double c) { put(i, {a, b, c}, true); }
    void SetComponent(long i, int k, double x) { SetValue(i * comps + k, x); }
};
struct vtkDoubleArray : vtkDataArray
{
    VTKSTUB_NEW(vtkDoubleArray)
};
struct vtkFloatArray : vtkDataArray
{
    vtkFloatArray() { single = true; }
    VTKSTUB_NEW(vtkFloatArray)
};

struct vtkPoints : vtkObject
{
    bool single = true; // the default of VTK
    std::vector<double> v;
    VTKSTUB_NEW(vtkPoints)
    double keep(double x) const { return single ? static_cast<double>(static_cast<float>(x)) : x; }
    void SetDataTypeToDouble() { single = false; }
    void SetDataTypeToFloat() { single = true; }
    void SetNumberOfPoints(long n) { v.resize(3 * n, std::nan("")); }
    long GetNumberOfPoints() const { return v.size() / 3; }
    void Allocate(long, long = 0) {}
    long InsertNextPoint(double x, double y, double z)
    {
        v.insert(v.end(), {keep(x), keep(y), keep(z)});
        return GetNumberOfPoints() - 1;
    }
    long InsertNextPoint(double const *x) { return InsertNextPoint(x[0], x[1], x[2]); }
    void SetPoint(long i, double x, double y, double z)
    {
        if (i < 0 || i >= GetNumberOfPoints())
            return vtkstub::fail("SetPoint out of range");
        v[3 * i] = keep(x);
        v[3 * i + 1] = keep(y);
        v[3 * i + 2] = keep(z);
    }
    void SetPoint(long i, double const *x) { SetPoint(i, x[0], x[1], x[2]); }
    void InsertPoint(long i, double x, double y, double z)
    {
        if (i >= GetNumberOfPoints())
            SetNumberOfPoints(i + 1);
        SetPoint(i, x, y, z);
    }
};

struct vtkPointData : vtkObject
{
    std::vector<vtkSmartPointer<vtkDataArray>> arrays;
    std::string scalars, vectors;
    VTKSTUB_NEW(vtkPointData)
    int AddArray(vtkDataArray *a)
    {
        for (auto &x : arrays)
            if (x.p == a)
                return 0;
        arrays.push_back(a);
        return arrays.size() - 1;
    }
    int SetScalars(vtkDataArray *a)
    {
        scalars = a->name;
        return AddArray(a);
    }
    int SetVectors(vtkDataArray *a)
    {
        if (a->comps != 3)
        {
            vtkstub::fail("vectors need three components");
            return -1;
        }
        vectors = a->name;
        return AddArray(a);
    }
    int SetActiveScalars(char const *s) { return scalars = s, 0; }
    int SetActiveVectors(char const *s) { return vectors = s, 0; }
};
struct vtkDataSet : vtkObject
{
    char const *kind;
    int ext[6] = {0, -1, 0, -1, 0, -1};
    vtkSmartPointer<vtkPoints> points;
    vtkSmartPointer<vtkPointData> data = vtkSmartPointer<vtkPointData>::New();
    explicit vtkDataSet(char const *k) : kind(k) {}
    void SetPoints(vtkPoints *p) { points = vtkSmartPointer<vtkPoints>(p); }
    vtkPointData *GetPointData() { return data; }
};
struct vtkStructuredGrid : vtkDataSet
{
    vtkStructuredGrid() : vtkDataSet("StructuredGrid") {}
    VTKSTUB_NEW(vtkStructuredGrid)
    void SetExtent(int a, int b, int c, int d, int e, int f)
    {
        int x[6] = {a, b, c, d, e, f};
        SetExtent(x);
    }
    void SetExtent(int *x) { std::copy(x, x + 6, ext); }
    void SetDimensions(int a, int b, int c) { SetExtent(0, a - 1, 0, b - 1, 0, c - 1); }
};
struct vtkPolyData : vtkDataSet
{
    vtkPolyData() : vtkDataSet("PolyData") {}
    VTKSTUB_NEW(vtkPolyData)
    void Allocate(long = 0, int = 0) {}
};
struct vtkXMLWriter : vtkObject
{
    std::string file;
    vtkSmartPointer<vtkDataSet> in;
    void SetFileName(char const *s) { file = s; }
    void SetInputData(vtkDataSet *d) { in = vtkSmartPointer<vtkDataSet>(d); }
    void SetDataModeToAscii() {}
    void SetDataModeToBinary() {}
    void SetDataModeToAppended() {}
    int Write()
    {
        if (!in.p || file.empty())
            return vtkstub::fail("nothing to write"), 0;
        std::FILE *f = std::fopen(file.c_str(), "w");
        if (!f)
            return vtkstub::fail("cannot write " + file), 0;
        auto const &d = *in.p;
        std::fprintf(f, "%s %d %d %d %d %d %d\n", d.kind, d.ext[0], d.ext[1], d.ext[2], d.ext[3], d.ext[4], d.ext[5]);
        std::fprintf(f, "scalars %s\nvectors %s\n", d.data->scalars.empty() ? "-" : d.data->scalars.c_str(),
                     d.data->vectors.empty() ? "-" : d.data->vectors.c_str());
        auto row = [&](std::string const &n, int comps, bool single, std::vector<double> const &v) {
            std::fprintf(f, "%s %d %s %zu\n", n.c_str(), comps, single ? "Float32" : "Float64", v.size());
            for (double x : v)
                std::fprintf(f, "%.17g\n", x);
        };
        if (d.points.p)
            row("Points", 3, d.points->single, d.points->v);
        for (auto const &a : d.data->arrays)
            row(a->name, a->comps, a->single, a->v);
        std::fclose(f);
        return 1;
    }
};
struct vtkXMLStructuredGridWriter : vtkXMLWriter
{
    VTKSTUB_NEW(vtkXMLStructuredGridWriter)
};
struct vtkXMLPolyDataWriter : vtkXMLWriter
{
    VTKSTUB_NEW(vtkXMLPolyDataWriter)
};
