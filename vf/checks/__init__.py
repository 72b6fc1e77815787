REGISTRY = {
    "Q01": ("qmc_energy", "q01"),
    "Q02": ("qmc_energy", "q02"),
    "Q04": ("qmc_boson", "q04"),
    "Q05": ("qmc_boson", "q05"),
    "Q03": ("qmc_state", "q03"),
    "Q06": ("qmc_state", "q06"),
    "Q07": ("qmc_state", "q07"),
    "Q12": ("qmc_state", "q12"),
    "Q09": ("qmc_mpi", "q09"),
    "Q11": ("qmc_pop", "q11"),
    "Q14": ("qmc_run", "q14"),
    "Q13": ("qmc_run", "q13"),
    "Q10": ("qmc_run", "q10"),
    "Q08": ("qmc_ham", "q08"),
    "D01": ("dyn", "d01"),
    "B01": ("btrial", "b01"),
    "H01": ("models", "h01"),
    "C01": ("cc", "c01"),
    "C02": ("fci", "c02"),
    "C03": ("cc", "c03"),
    "C04": ("cc", "c04"),
    "M07": ("scf", "m07"),
    "M01": ("mqed", "m01"),
    "M02": ("mqed", "m02"),
    "M03": ("mqed", "m03"),
    "M04": ("mqed", "m04"),
    "M05": ("mqed", "m05"),
    "M06": ("mqed", "m06"),
}
