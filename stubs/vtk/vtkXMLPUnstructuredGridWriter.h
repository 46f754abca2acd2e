#pragma once
#include "vtk_recording.h"
// writes the pieces in its range next to the summary of all the pieces, which the first process writes
class vtkXMLPUnstructuredGridWriter : public vtkXMLWriterStub {
    int pieces_ = 1, start_ = 0, end_ = 0;

  public:
    VTK_STUB_NEW(vtkXMLPUnstructuredGridWriter)
    void SetNumberOfPieces(int n) { pieces_ = n; }
    void SetStartPiece(int n) { start_ = n; }
    void SetEndPiece(int n) { end_ = n; }
    void SetGhostLevel(int) {}
    int Write() override
    {
        sim::Host h;
        if (!input_ || name_.empty() || start_ < 0 || end_ >= pieces_ || start_ > end_) {
            error_ = 1;
            vtkstub::misuse("a write of pieces that are not there");
            return 0;
        }
        auto dot = name_.rfind('.');
        std::string stem = name_.substr(0, dot);
        error_ = 0;
        for (int i = start_; i <= end_; ++i)
            if (!vtkstub::store(stem + "_" + std::to_string(i) + ".vtu", input_->stub())) error_ = 20;
        if (vtkstub::world().rank == 0) {
            vtkstub::Content c;
            c.summary = true;
            for (int i = 0; i < pieces_; ++i) c.pieces.push_back(stem + "_" + std::to_string(i) + ".vtu");
            if (!vtkstub::store(name_, c)) error_ = 20;
        }
        return error_ == 0;
    }
};
