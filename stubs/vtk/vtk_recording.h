// A stand-in for the parts of VTK that mito's writers use. It keeps what is handed to it the way VTK
// does (reference counts, copies of names and tuples, arrays replaced by name) and "writes" to a disk
// in memory, where a write can be made to fail.
#pragma once
#include <array>
#include <cstddef>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include "../../sim/sim.h"

#ifndef VTK_MAJOR_VERSION
#define VTK_MAJOR_VERSION 9
#define VTK_MINOR_VERSION 3
#endif
typedef long long vtkIdType;
constexpr int VTK_EMPTY_CELL = 0, VTK_VERTEX = 1, VTK_LINE = 3, VTK_TRIANGLE = 5, VTK_TETRA = 10;

namespace vtkstub {
    // what a file says
    struct Content {
        struct Array {
            int components = 1;
            std::vector<double> values;
        };
        std::vector<std::array<double, 3>> points;
        std::vector<std::pair<int, std::vector<vtkIdType>>> cells;
        std::map<std::string, Array> arrays;
        std::vector<std::string> pieces;    // of a summary
        bool summary = false;
    };
    struct World {
        std::map<std::string, Content> disk;
        int rank = 0, size = 1;       // of the process that is running
        int fail_at = 0, writes = 0;  // the write that fails, counting from the beginning of the operation
        bool torn = false;            // leaves an incomplete file behind
        int fired = 0;
        std::string misuse;           // the first use VTK does not allow
    };
    inline World & world()
    {
        static World w;
        return w;
    }
    inline void misuse(const char * what)
    {
        sim::Host h;
        if (world().misuse.empty()) world().misuse = what;
    }
    inline int store(const std::string & name, const Content & c)
    {
        auto & w = world();
        if (++w.writes == w.fail_at) {
            ++w.fired;
            w.disk.erase(name);
            if (w.torn) {
                Content part = c;
                part.points.resize(part.points.size() / 2);
                part.cells.clear();
                w.disk[name] = part;
            }
            return 0;
        }
        w.disk[name] = c;
        return 1;
    }
}    // namespace vtkstub

class vtkObject {
    int count_ = 1;

  public:
    virtual ~vtkObject() = default;
    vtkObject() = default;
    vtkObject(const vtkObject &) = delete;
    void operator=(const vtkObject &) = delete;
    void Register(vtkObject *) { ++count_; }
    void UnRegister(vtkObject *)
    {
        sim::Host h;
        if (!--count_) delete this;
    }
    void Delete() { UnRegister(nullptr); }
    int GetReferenceCount() const { return count_; }
    void Modified() {}
};
typedef vtkObject vtkObjectBase;

#define VTK_STUB_NEW(T)                  \
    static T * New()                     \
    {                                    \
        sim::Host h;                     \
        return new T();                  \
    }

template <class T>
class vtkSmartPointer {
    T * p_ = nullptr;
    void set(T * p)
    {
        if (p) p->Register(nullptr);
        T * old = p_;
        p_ = p;
        if (old) old->UnRegister(nullptr);
    }

  public:
    vtkSmartPointer() = default;
    vtkSmartPointer(T * p) { set(p); }
    vtkSmartPointer(const vtkSmartPointer & o) { set(o.p_); }
    vtkSmartPointer(vtkSmartPointer && o) noexcept : p_(std::exchange(o.p_, nullptr)) {}
    template <class U>
    vtkSmartPointer(const vtkSmartPointer<U> & o) { set(o.GetPointer()); }
    ~vtkSmartPointer() { set(nullptr); }
    vtkSmartPointer & operator=(const vtkSmartPointer & o)
    {
        set(o.p_);
        return *this;
    }
    vtkSmartPointer & operator=(T * p)
    {
        set(p);
        return *this;
    }
    static vtkSmartPointer New() { return Take(T::New()); }
    static vtkSmartPointer Take(T * p)
    {
        vtkSmartPointer s;
        s.p_ = p;
        return s;
    }
    void TakeReference(T * p) { *this = Take(p); }
    T * GetPointer() const { return p_; }
    T * Get() const { return p_; }
    operator T *() const { return p_; }
    T & operator*() const { return *p_; }
    T * operator->() const { return p_; }
};
template <class T>
class vtkNew {
    T * p_ = T::New();

  public:
    ~vtkNew() { p_->UnRegister(nullptr); }
    T * operator->() const { return p_; }
    T * Get() const { return p_; }
    T * GetPointer() const { return p_; }
    operator T *() const { return p_; }
};

class vtkIdList : public vtkObject {
    std::vector<vtkIdType> v_;

  public:
    VTK_STUB_NEW(vtkIdList)
    vtkIdType GetNumberOfIds() const { return (vtkIdType) v_.size(); }
    vtkIdType GetId(vtkIdType i) const { return v_.at((size_t) i); }
    void SetNumberOfIds(vtkIdType n)
    {
        sim::Host h;
        v_.resize((size_t) n, -1);
    }
    void SetId(vtkIdType i, vtkIdType id)
    {
        if (i < 0 || i >= GetNumberOfIds()) return vtkstub::misuse("an id is set beyond the end of a list");
        v_[(size_t) i] = id;
    }
    void InsertId(vtkIdType i, vtkIdType id)
    {
        sim::Host h;
        if (i >= GetNumberOfIds()) v_.resize((size_t) i + 1, -1);
        v_[(size_t) i] = id;
    }
    vtkIdType InsertNextId(vtkIdType id)
    {
        sim::Host h;
        v_.push_back(id);
        return GetNumberOfIds() - 1;
    }
    void Reset()
    {
        sim::Host h;
        v_.clear();
    }
    const std::vector<vtkIdType> & stub() const { return v_; }
};

class vtkCell : public vtkObject {
    vtkIdList * ids_;

  protected:
    explicit vtkCell(int n) : ids_(vtkIdList::New()) { ids_->SetNumberOfIds(n); }

  public:
    ~vtkCell() override { ids_->Delete(); }
    vtkIdList * GetPointIds() const { return ids_; }
    vtkIdType GetNumberOfPoints() const { return ids_->GetNumberOfIds(); }
    virtual int GetCellType() = 0;
};
#define VTK_STUB_CELL(T, TYPE, N)                \
    class T : public vtkCell {                   \
      public:                                    \
        T() : vtkCell(N) {}                      \
        VTK_STUB_NEW(T)                          \
        int GetCellType() override { return TYPE; } \
    };
VTK_STUB_CELL(vtkVertex, VTK_VERTEX, 1)
VTK_STUB_CELL(vtkLine, VTK_LINE, 2)
VTK_STUB_CELL(vtkTriangle, VTK_TRIANGLE, 3)
VTK_STUB_CELL(vtkTetra, VTK_TETRA, 4)

class vtkPoints : public vtkObject {
    std::vector<std::array<double, 3>> x_;

  public:
    VTK_STUB_NEW(vtkPoints)
    vtkIdType GetNumberOfPoints() const { return (vtkIdType) x_.size(); }
    void SetNumberOfPoints(vtkIdType n)
    {
        sim::Host h;
        x_.resize((size_t) n);
    }
    // (VTK keeps single precision unless asked not to; the stand-in keeps what it is given)
    void SetDataTypeToDouble() {}
    void SetDataType(int) {}
    vtkIdType InsertNextPoint(double x, double y, double z)
    {
        sim::Host h;
        x_.push_back({ x, y, z });
        return GetNumberOfPoints() - 1;
    }
    vtkIdType InsertNextPoint(const double * x) { return InsertNextPoint(x[0], x[1], x[2]); }
    void InsertPoint(vtkIdType i, double x, double y, double z)
    {
        sim::Host h;
        if (i >= GetNumberOfPoints()) x_.resize((size_t) i + 1);
        x_[(size_t) i] = { x, y, z };
    }
    void SetPoint(vtkIdType i, double x, double y, double z)
    {
        if (i < 0 || i >= GetNumberOfPoints()) return vtkstub::misuse("a point is set that is not there");
        x_[(size_t) i] = { x, y, z };
    }
    const std::vector<std::array<double, 3>> & stub() const { return x_; }
};

class vtkAbstractArray : public vtkObject {
  protected:
    std::string name_;
    int components_ = 1;

  public:
    void SetName(const char * n)
    {
        sim::Host h;
        name_ = n ? n : "";
    }
    const char * GetName() const { return name_.c_str(); }
    int GetNumberOfComponents() const { return components_; }
    void SetNumberOfComponents(int n) { components_ = n; }
};
class vtkDataArray : public vtkAbstractArray {};
class vtkDoubleArray : public vtkDataArray {
    std::vector<double> v_;

  public:
    VTK_STUB_NEW(vtkDoubleArray)
    vtkIdType GetNumberOfTuples() const { return (vtkIdType) v_.size() / components_; }
    void SetNumberOfTuples(vtkIdType n)
    {
        sim::Host h;
        v_.resize((size_t) (n * components_), 0.0);
    }
    void SetNumberOfValues(vtkIdType n)
    {
        sim::Host h;
        v_.resize((size_t) n, 0.0);
    }
    void SetTuple(vtkIdType i, const double * t)
    {
        if (i < 0 || i >= GetNumberOfTuples()) return vtkstub::misuse("a tuple is set that is not there");
        for (int k = 0; k < components_; ++k) v_[(size_t) (i * components_ + k)] = t[k];
    }
    void SetTypedTuple(vtkIdType i, const double * t) { SetTuple(i, t); }
    void SetTuple1(vtkIdType i, double a) { SetTuple(i, &a); }
    void SetComponent(vtkIdType i, int k, double a)
    {
        if (i < 0 || i >= GetNumberOfTuples() || k < 0 || k >= components_) return vtkstub::misuse("a component is set that is not there");
        v_[(size_t) (i * components_ + k)] = a;
    }
    void SetValue(vtkIdType i, double a)
    {
        if (i < 0 || i >= (vtkIdType) v_.size()) return vtkstub::misuse("a value is set that is not there");
        v_[(size_t) i] = a;
    }
    void InsertTuple(vtkIdType i, const double * t)
    {
        if (i >= GetNumberOfTuples()) SetNumberOfTuples(i + 1);
        SetTuple(i, t);
    }
    vtkIdType InsertNextTuple(const double * t)
    {
        InsertTuple(GetNumberOfTuples(), t);
        return GetNumberOfTuples() - 1;
    }
    vtkIdType InsertNextValue(double a)
    {
        sim::Host h;
        v_.push_back(a);
        return (vtkIdType) v_.size() - 1;
    }
    double GetComponent(vtkIdType i, int k) const { return v_.at((size_t) (i * components_ + k)); }
    const std::vector<double> & stub() const { return v_; }
};

class vtkPointData : public vtkObject {
    std::vector<vtkSmartPointer<vtkDoubleArray>> a_;

  public:
    VTK_STUB_NEW(vtkPointData)
    // an array replaces the one of the same name
    int AddArray(vtkDoubleArray * a)
    {
        sim::Host h;
        for (size_t i = 0; i < a_.size(); ++i)
            if (std::string(a_[i]->GetName()) == a->GetName()) {
                a_[i] = a;
                return (int) i;
            }
        a_.push_back(a);
        return (int) a_.size() - 1;
    }
    int SetScalars(vtkDoubleArray * a) { return AddArray(a); }
    int SetVectors(vtkDoubleArray * a) { return AddArray(a); }
    int GetNumberOfArrays() const { return (int) a_.size(); }
    int HasArray(const char * n) const { return GetArray(n) != nullptr; }
    vtkDoubleArray * GetArray(const char * n) const
    {
        for (auto & a : a_)
            if (std::string(a->GetName()) == n) return a;
        return nullptr;
    }
    void RemoveArray(const char * n)
    {
        sim::Host h;
        for (size_t i = 0; i < a_.size(); ++i)
            if (std::string(a_[i]->GetName()) == n) {
                a_.erase(a_.begin() + (long) i);
                return;
            }
    }
    const std::vector<vtkSmartPointer<vtkDoubleArray>> & stub() const { return a_; }
};

class vtkUnstructuredGrid : public vtkObject {
    vtkSmartPointer<vtkPoints> points_;
    vtkSmartPointer<vtkPointData> data_ = vtkSmartPointer<vtkPointData>::New();
    std::vector<std::pair<int, std::vector<vtkIdType>>> cells_;

  public:
    VTK_STUB_NEW(vtkUnstructuredGrid)
    void Allocate(vtkIdType = 1000, int = 1000) {}
    bool AllocateEstimate(vtkIdType, vtkIdType) { return true; }
    bool AllocateExact(vtkIdType, vtkIdType) { return true; }
    void SetPoints(vtkPoints * p)
    {
        sim::Host h;
        points_ = p;
    }
    vtkPoints * GetPoints() const { return points_; }
    vtkIdType GetNumberOfPoints() const { return points_ ? points_->GetNumberOfPoints() : 0; }
    vtkIdType GetNumberOfCells() const { return (vtkIdType) cells_.size(); }
    vtkPointData * GetPointData() const { return data_; }
    vtkIdType InsertNextCell(int type, vtkIdList * ids)
    {
        sim::Host h;
        cells_.push_back({ type, ids->stub() });
        return GetNumberOfCells() - 1;
    }
    vtkIdType InsertNextCell(int type, vtkIdType n, const vtkIdType * ids)
    {
        sim::Host h;
        cells_.push_back({ type, std::vector<vtkIdType>(ids, ids + n) });
        return GetNumberOfCells() - 1;
    }
    vtkstub::Content stub() const
    {
        vtkstub::Content c;
        if (points_) c.points = points_->stub();
        c.cells = cells_;
        for (auto & a : data_->stub()) c.arrays[a->GetName()] = { a->GetNumberOfComponents(), a->stub() };
        return c;
    }
};

class vtkXMLWriterStub : public vtkObject {
  protected:
    std::string name_;
    vtkSmartPointer<vtkUnstructuredGrid> input_;
    unsigned long error_ = 0;

  public:
    void SetFileName(const char * n)
    {
        sim::Host h;
        name_ = n ? n : "";
    }
    void SetInput(vtkUnstructuredGrid * g)
    {
        sim::Host h;
        input_ = g;
    }
    void SetInputData(vtkUnstructuredGrid * g) { SetInput(g); }
    void SetDataModeToAscii() {}
    void SetDataModeToBinary() {}
    void SetDataModeToAppended() {}
    void SetDataMode(int) {}
    void SetCompressorTypeToNone() {}
    void Update() { Write(); }
    unsigned long GetErrorCode() const { return error_; }
    virtual int Write() = 0;
    const char * GetFileName() const { return name_.c_str(); }
};
class vtkXMLUnstructuredGridWriter : public vtkXMLWriterStub {
  public:
    VTK_STUB_NEW(vtkXMLUnstructuredGridWriter)
    int Write() override
    {
        sim::Host h;
        if (!input_ || name_.empty()) {
            error_ = 1;
            vtkstub::misuse("a write without a grid or a name");
            return 0;
        }
        error_ = vtkstub::store(name_, input_->stub()) ? 0 : 20;    // (vtkErrorCode::OutOfDiskSpaceError and others)
        return error_ == 0;
    }
};
