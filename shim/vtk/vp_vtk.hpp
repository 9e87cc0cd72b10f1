// Stand-in for the parts of VTK used to read a snapshot back: the "file" is the table vp_vtk_file, filled by the harness.
#pragma once
#include <cstddef>
#include <cstdint>
#include <deque>
#include <string>
#include <utility>
#include <vector>
#include "vp.h"
template <class T> class vtkSmartPointer {
    T *p = nullptr;
  public:
    vtkSmartPointer() {}
    vtkSmartPointer(T *q) : p(q) {}
    static vtkSmartPointer New() { return vtkSmartPointer(new T); }
    T *operator->() const { vp_assert(p != nullptr, "a missing array is read"); return p; }
    T *Get() const { return p; }
    T *GetPointer() const { return p; }
    operator T *() const { return p; }
};
typedef long long vtkIdType;
class vtkAbstractArray { public: virtual ~vtkAbstractArray() {} };
class vtkDataArray : public vtkAbstractArray {
  public:
    std::vector<double> v; int nc = 1;
    double GetComponent(vtkIdType i, int j) const { vp_assert(i >= 0 && j >= 0 && j < nc && (size_t)(i * nc + j) < v.size(), "array index in range"); return v[i * nc + j]; }
    vtkIdType GetNumberOfTuples() const { return v.size() / nc; }
    int GetNumberOfComponents() const { return nc; }
};
template <class T> class VpTyped : public vtkDataArray {
  public:
    T GetTypedComponent(vtkIdType i, int j) const { return (T)GetComponent(i, j); }
    T GetValue(vtkIdType i) const { return (T)v[i]; }
};
class vtkTypeInt32Array : public VpTyped<int32_t> {};
class vtkTypeUInt8Array : public VpTyped<uint8_t> {};
template <class A, class B> A *vtkArrayDownCast(B *b) { return dynamic_cast<A *>(b); }
template <class A, class B> A *vtkArrayDownCast(const vtkSmartPointer<B> &b) { return dynamic_cast<A *>(b.Get()); }
class vtkPoints {
  public:
    std::vector<double> v;
    vtkIdType GetNumberOfPoints() const { return v.size() / 3; }
    void GetPoint(vtkIdType i, double x[3]) const { vp_assert(i >= 0 && (size_t)(3 * i + 2) < v.size(), "point index in range"); for (int k = 0; k < 3; k++) x[k] = v[3 * i + k]; }
};
class vtkCellData {
  public:
    std::vector<std::pair<std::string, vtkDataArray *>> a;
    vtkDataArray *GetArray(const char *n) const { for (auto &p : a) if (p.first == n) return p.second; return nullptr; }
    vtkAbstractArray *GetAbstractArray(const char *n) const { return GetArray(n); }
};
class vtkPolyData {
  public:
    vtkPoints pts; vtkCellData cd;
    vtkPoints *GetPoints() { return &pts; }
    vtkCellData *GetCellData() { return &cd; }
    vtkIdType GetNumberOfPoints() { return pts.GetNumberOfPoints(); }
};
inline vtkPolyData vp_vtk_file;
inline std::string vp_vtk_name;
class vtkXMLPPolyDataReader {
  public:
    void SetFileName(const char *n) { vp_vtk_name = n; }
    void Update() {}
    vtkPolyData *GetOutput() { return &vp_vtk_file; }
};
typedef vtkXMLPPolyDataReader vtkXMLPolyDataReader;
