"""Container variants outside the contract of a function (static; see DESIGN.md)."""
UNSUPPORTED = {
    # angles and impedances form a table (array.reshape / outer operations on ndarrays)
    "AVO.Aki_Richards": {"series": 1}, "AVO.EI_ref": {"series": 1},
    # complex arithmetic with .imag
    "Fluid.White_Dutta_Ode": {"series": 1, "series-shuffled": 1, "column": 1, "float32": 1},
    # differences of nearly equal numbers: single precision keeps no correct digits
    # (Biot: scipy's complex Bessel functions have no extended precision)
    "Fluid.Biot": {"float32": 1, "longdouble": 1}, "Fluid.Geertsma_Smit_LF": {"float32": 1},
    # negative integer powers are refused by numpy
    "Fluid.Biot_HF": {"int": 1},
    # polynomial roots per stress refuse NaN and extended precision
    "GM.Digby": {"nan": 1, "longdouble": 1},
}
