#pragma once
#include "vtk_recording.h"
class vtkMPIController : public vtkObject {
  public:
    VTK_STUB_NEW(vtkMPIController)
    void Initialize(int * = nullptr, char *** = nullptr, int = 0) {}
    void Finalize(int = 0) {}
    static void SetGlobalController(vtkMPIController *) {}
    int GetNumberOfProcesses() const { return vtkstub::world().size; }
    int GetLocalProcessId() const { return vtkstub::world().rank; }
    void Barrier() {}
};
typedef vtkMPIController vtkMultiProcessController;
