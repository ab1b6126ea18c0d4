D = "bbn_drivers"
JC = [("JunctionTree.tla", "JunctionTreeCliques.cfg", ("quick", "thorough"), [])]
JT = [("JunctionTree.tla", "JunctionTree4.cfg", ("quick",), []), ("JunctionTree.tla", "JunctionTree4all.cfg", ("thorough",), [])]
SM = [("SamplerModel.tla", "SamplerModel.cfg", ("quick",), []), ("SamplerModel.tla", "SamplerModel3.cfg", ("thorough",), [])]
REG = {
    "C01": dict(driver=D, trace="TracePosterior.tla"),
    "C02": dict(driver=D, trace="TraceWellFormed.tla"),
    "C03": dict(driver=D, trace="TraceEvidence.tla"),
    "C04": dict(driver=D, trace="TraceHistory.tla", gen={"quick": ("Session.tla", "SessionGen.cfg", [])}),
    "C05": dict(driver=D, trace="TracePresentation.tla", collate=True, allshards=True),
    "C06": dict(driver=D, trace="TraceStructure.tla"),
    "C07": dict(driver=D, trace="TraceTable.tla"),
    "C08": dict(driver=D, trace="TraceMoral.tla"),
    "C09": dict(driver=D, trace="TraceTriangulate.tla", models=JC),
    "C10": dict(driver=D, trace="TraceJoinTree.tla", models=JT),
    "C11": dict(driver=D, trace="TracePotential.tla", models=JT),
    "C12": dict(driver=D, trace="TraceCalibrate.tla", models=JT),
    "C13": dict(driver=D, trace="TraceSamples.tla", models=SM),
    "C14": dict(driver=D, trace="TraceFrequencies.tla", models=SM),
    "C15": dict(driver="engine_drivers", trace="TraceEngine.tla",
                models=[("EngineModel.tla", "EngineModel.cfg", ("quick", "thorough"), [])]),
    "C16": dict(driver="engine_drivers", trace="TraceEngine.tla",
                models=[("EngineModel.tla", "EngineModel.cfg", ("quick", "thorough"), [])],
                gen={"quick": ("EngineModel.tla", "EngineGen.cfg", []), "thorough": ("EngineModel.tla", "EngineGen4.cfg", [])}),
    "C17": dict(driver="struct_drivers", trace="TraceStructModel.tla", gen={"quick": ("StructGen.tla", "StructGen.cfg", [])}),
    "C18": dict(driver="struct_drivers", trace="TraceStructModel.tla", models=[("ThinModel.tla", "ThinModel.cfg", ("quick", "thorough"), [])]),
    "C19": dict(driver="struct_drivers", trace="TraceStructModel.tla"),
    "C20": dict(driver="learn_drivers", trace="TraceLearn.tla"),
    "C21": dict(driver="learn_drivers", trace="TraceLearn.tla"),
    "C22": dict(driver="window_drivers", trace="TraceWindows.tla",
                gen={"quick": ("WindowsModel.tla", "WindowsModel.cfg", []), "thorough": ("WindowsModel.tla", "WindowsModel7.cfg", [])}),
    "C23": dict(driver="feature_drivers", trace="TraceBuckets.tla",
                gen={"quick": ("BucketsModel.tla", "BucketsModel.cfg", []), "thorough": ("BucketsModel.tla", "BucketsModel5.cfg", [])}),
    "C24": dict(driver="feature_drivers", trace="TraceFeatures.tla",
                gen={"quick": ("FeaturesModel.tla", "FeaturesModel.cfg", []), "thorough": ("FeaturesModel.tla", "FeaturesModel5.cfg", [])}),
    "C25": dict(driver="network_drivers", trace="TraceNetwork.tla",
                gen={"quick": ("NetworkModel.tla", "NetworkGen.cfg", []), "thorough": ("NetworkModel.tla", "NetworkGen5.cfg", [])}),
    "C26": dict(driver="network_drivers", trace="TraceNetwork.tla"),
    "C27": dict(driver="generator_drivers", trace="TraceGenerated.tla"),
    "C28": dict(driver="generator_drivers", trace="TraceTabular.tla"),
    "C29": dict(driver="generator_drivers", trace="TraceSeries.tla"),
    "C31": dict(driver="plot_drivers", trace="TracePlots.tla"),
    "C32": dict(driver="torch_drivers", trace="TraceTorch.tla", models=[("ExpansionModel.tla", "ExpansionModel4.cfg", ("thorough",), [])],
                gen={"quick": ("ExpansionModel.tla", "ExpansionGen.cfg", [])}),
    "C33": dict(driver="torch_drivers", trace="TraceTorch.tla", models=[("LinksModel.tla", "LinksModel.cfg", ("quick", "thorough"), [])]),
    "C34": dict(driver="estimator_drivers", trace="TraceEstimator.tla", models=[("LinksModel.tla", "LinksModel.cfg", ("quick", "thorough"), [])]),
    "C35": dict(driver="estimator_drivers", trace="TraceEstimator.tla",
                gen={"quick": ("EstimatorModel.tla", "EstimatorGen.cfg", []), "thorough": ("EstimatorModel.tla", "EstimatorGen5.cfg", [])}),
    "C30": dict(driver="network_drivers", trace="TraceNetwork.tla",
                models=[("RocModel.tla", "RocModel.cfg", ("quick",), []), ("RocModel.tla", "RocModel6.cfg", ("thorough",), [])]),
}
NOT_APPLICABLE = {}
# the quick tier runs the drivers several times, with other seeds and hash seeds
for _id, _n in dict(C01=2, C02=4, C03=4, C04=2, C06=6, C07=4, C08=5, C09=2, C15=6, C16=2, C17=2, C18=2, C19=2, C20=3, C21=3, C22=3, C23=4, C24=4,
                    C25=2, C26=4, C27=6, C28=8, C29=6, C30=2, C31=2, C35=3).items():
    REG[_id]["rounds"] = _n
