REGISTRY = {
    "C01": ("spectra", "c01"),
    "C02": ("spectra", "c02"),
    "C03": ("spectra", "c03"),
    "C04": ("spectra", "c04"),
    "C05": ("region", "c05"),
    "C08": ("process", "c08"),
    "C09": ("process", "c09"),
    "C14": ("process", "c14"),
}
REGISTRY.update(
    C10=("targets", "c10"),
    C15=("targets", "c15"),
    C16=("targets", "c16"),
    C17=("targets", "c17"),
)
REGISTRY.update(
    C18=("opacity", "c18"),
    C19=("opacity", "c19"),
    C20=("opacity", "c20"),
    C21=("opacity", "c21"),
    C22=("opacity", "c22"),
)
REGISTRY.update(C23=("util", "c23"), C24=("util", "c24"))
REGISTRY.update({i: ("interact", i.lower()) for i in ("C06", "C07", "C11", "C12", "C13")})
REGISTRY.update({f"C{i}": ("evolution", f"c{i}") for i in range(25, 32)})
REGISTRY.update({f"C{i}": ("fit", f"c{i}") for i in range(32, 36)})
REGISTRY.update(C36=("figures", "c36"))
REGISTRY.update(C37=("schedules", "c37"), C38=("schedules", "c38"))
REGISTRY.update(C39=("copies", "c39"), C40=("settings", "c40"), C41=("wear", "c41"))
