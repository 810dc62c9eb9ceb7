TECHNIQUES = {
    "C01": (
        "write/read round trips of generated diagrams and hand-built "
        "files judged against the diagram written",
        "Every format, kind, magnitude and path shape generated."),
    "C02": (
        "constructed tables, their histories and rejected inputs "
        "compared with a plain model of wind to speed",
        "All orders, formats and invalid inputs generated."),
    "C03": (
        "trace of table edits compared with a plain model of the table",
        "Histories of accepted and refused edits."),
    "C04": (
        "symmetrized diagrams compared with an independent mirror model",
        "All diagram kinds."),
    "C05": (
        "multi-sail diagrams compared with their sails taken one by one",
        "All kinds of sails, names and options."),
    "C06": (
        "slices and points compared with the diagram's own values",
        "All diagram kinds and slice options."),
    "C07": (
        "evaluations compared with the data, its range and an "
        "independent reference",
        "All diagram kinds, interpolators and hostile arguments."),
    "C08": (
        "interpolator results compared with independent formulas and "
        "invariants",
        "All interpolators, scattered and gridded data."),
    "C09": (
        "neighbourhood membership compared with an independent "
        "geometric test",
        "All neighbourhoods."),
    "C10": (
        "sampler output judged against geometric invariants of the data",
        "All samplers."),
    "C11": (
        "weigher output compared with independent formulas",
        "All weighers and their combinations."),
    "C12": (
        "filter output compared with an independent selection",
        "All filters."),
    "C13": (
        "imputator output compared with an independent row model",
        "All imputators."),
    "C14": (
        "differential trace monitor: operation histories run next to a "
        "plain table model",
        "Every operation of the container."),
    "C15": (
        "independent name matcher and value-conservation monitor over "
        "generated data",
        "Every synonym and clash pattern."),
    "C16": (
        "CSV files written by the monitor, parsed values compared with "
        "the values written",
        "With and without pandas."),
    "C17": (
        "NMEA logs written by the monitor, parsed records compared with"
        " an independent decoder",
        "All sentence types."),
    "C18": (
        "conversion results compared with the wind triangle",
        "Both directions."),
    "C19": (
        "weather answers compared with an independent interpolation of "
        "the same grid; grid accesses recorded",
        "All grids."),
    "C20": (
        "round trips through files and combinations of recorded weather"
        " models",
        "All weather models."),
    "C21": (
        "distances and paths compared with haversine and Mercator "
        "formulas and metric laws",
        "Both globes."),
    "C22": (
        "recommended directions judged by brute force over the slice",
        "All diagram kinds."),
    "C23": (
        "recorded weather, diagram and cost queries of voyages judged "
        "against independent navigation formulas and integration",
        "All three voyage functions."),
    "C24": (
        "recorded stage calls replayed against the documented chain, "
        "statistics and record accounting",
        "All combinations of stages, histories of runs."),
    "C25": (
        "diagrams of the extensions compared with independent "
        "evaluations of the points",
        "All extensions, resolutions and components."),
    "C26": (
        "influence removal, addition and weather expansion compared "
        "with independent row models; weather queries recorded",
        "All models and modes."),
    "C27": (
        "injected points and smoothed series compared with invariants "
        "and independent formulas",
        "All injectors and smoothers."),
    "C28": (
        "fits compared with the generating model and with perturbed "
        "parameters",
        "All regressors."),
    "C29": (
        "model functions compared with their documented formulas",
        "All model functions, scalar and array input."),
    "C30": (
        "truth-table monitor over generated membership functions and "
        "their combinations",
        "All operators."),
    "C31": (
        "quality reports compared with independently computed measures",
        "All reports and diagrams."),
    "C32": (
        "drawn artists inspected and compared with the diagram's slices",
        "All projections and diagram kinds."),
    "C33": (
        "online monitor over sessions of operations in random order: snapshots "
        "of all caller-owned objects and all results after every operation, "
        "repetition in other orders and after overwriting all results",
        "Public calls of all parts with shared mutable arguments."),
    "C34": (
        "histories of accepted and rejected additions run next to a plain "
        "list of points",
        "All forms of points, histories with rejections."),
    "C35": (
        "printed text parsed back and compared entry by entry with the "
        "diagram",
        "All kinds of diagrams, long and short tables."),
    "C36": (
        "differential runs of calls with and without the argument, with a "
        "third run to see that another value can be told apart",
        "All documented defaults that calls can tell apart."),
    "C37": (
        "differential runs of a much used component against a newly built "
        "one on fresh copies, after every call of a random session",
        "Sessions with arguments reused, changed in place, nearly equal, in "
        "other memory layouts; rewritten files; several instances."),
}
