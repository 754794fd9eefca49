#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the table of claimed checks."""
import json, pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
T = "TLA+ specification checked with TLC; "
TV = T + "recorded runs of the program validated against it by TLC"
CLAIMED = {
 "C01": (TV, "Exhaustive on a small instance of the specification; on the code, every output interval of the sampled runs. Assumes single-precision rounding stays within the stated tolerance."),
 "C02": (TV, "Exhaustive on a small instance; on the code, every cell of every output of the sampled runs."),
 "C03": (TV, "Every step of the sampled runs is compared cell by cell with the specification in fixed point (2^-18)."),
 "C04": (TV, "As C03, on fluxes around and far above the cap."),
 "C05": (TV, "As C03. The closure is accepted as documented or as built (known finding: surface fluxes are ignored)."),
 "C13": (TV, "As C03, over grid spacings, poles and antimeridian; tiny polar cells are outside the precision of the specification."),
 "C06": (TV + "; rotated worlds compared", "Exhaustive on a small ring; on the code, sampled runs and rotations."),
 "C07": (TV, "Region and window membership decided by the specification for each step of the sampled runs."),
 "C08": (T + "schedules and calendars model checked, written files validated against them", "Sampled schedules in all nine calendars; output frequencies divide a day."),
 "C09": (TV + "; histories of forcing requests", "Sampled; linear interpolation in fixed point."),
 "C10": (T + "pairs of recorded runs validated against a relational specification", "Sampled runs, all coarser frequencies."),
 "C11": (T + "pairs of recorded runs validated against a relational specification", "Restart after every output of the sampled runs, and chains of restarts."),
 "C12": (T + "boxes enumerated by TLC replayed into the program, selections validated", "All boxes with edges on, beside and between cell centres of six grids (sampled in quick)."),
 "C14": (T + "cache design model checked; sequences of runs and requests validated", "Sampled sequences of runs in one process against runs alone, bit by bit."),
 "C15": (TV + "; column integration model checked", "Exhaustive on a small instance; on the code, every cell of sampled columns in fixed point (known finding: integer pressure levels)."),
 "C16": (TV, "As C15, for precipitation and evaporation of all sources, units and signs."),
 "C17": (TV, "Names, times and grids of all files of sampled sources, layouts, calendars and frequencies."),
 "C18": (T + "defects enumerated by TLC injected into the program, outcomes validated", "Single defects of every variable, time and source (sampled in quick), pairs sampled (known finding: tp/d2m without a dimension are spread)."),
 "C19": (T + "configurations enumerated from the specification loaded by the program, outcomes validated", "Every single deviation from a valid configuration and sampled pairs (quick); 100k configurations (thorough)."),
 "C20": (TV, "Sampled valid configurations of every kind through file, string and output attributes."),
 "C21": (T + "command histories generated from the specification and replayed, outcomes validated", "All commands, directions, places of the configuration and failures of the specification, sampled histories of them."),
 "C22": (T + "download scenarios generated by TLC replayed against a local stand-in server, outcomes validated", "Every position of a failing request for small catalogues; the network is a stand-in for the requests library's transport."),
 "C23": (T + "failure histories generated by TLC injected into file opening, attempts and pauses validated", "All histories of up to nine attempts up to renaming of other errors."),
 "C24": (T + "warning policy model checked; warnings of recorded runs validated", "Every step and layer of the sampled runs; factors within 0.06% of a threshold are accepted either way."),
 "C25": (TV, "Every report of the sampled runs, recomputed from the output files by the specification to 0.01 points."),
 "C26": (T + "polygon clipping model checked; stored weights and tagged fields of recorded runs validated", "Sampled polygons (stars, holes, parts, edges on cell edges) and grids; shares to 0.3%."),
 "C27": (T + "pool design model checked; parallel runs validated against it", "Sampled numbers of workers, orders of completion and failing days."),
 "C28": (T + "fault runs validated against a relational specification", "Sampled fault points: missing and damaged days, records, variables, blocked outputs."),
 "C29": (T + "sums over outputs model checked; drawn fields of recorded commands validated", "Sampled runs and folders; the drawn field is read from the figure before it is rendered."),
 "C30": (T + "squares and unions model checked; designed files and runs with them validated", "Sampled grids, points, tracks and selections; regionmask, geopandas and cartopy are not installed, stand-ins provide named regions."),
 "C31": (TV + "; served and local runs compared", "Sampled runs and failing requests against a DAP2 server on the loopback network."),
 "C32": (TV + "; runs compared with the sum of runs", "Model: every step of bounded worlds; runs: sampled divisions of regions and periods."),
 "C33": (TV + "; runs in mapped worlds compared", "Model: every step of bounded worlds; runs: sampled worlds, single-precision rounding."),
 "C34": (T + "histories model checked, situations generated by TLC replayed into the scripts, requests and files validated", "Runs are the scripts with other settings and a stand-in for cdsapi."),
 "C35": (TV, "Model: every step of bounded worlds; runs: sampled flows with cells that overflow and run dry, judged step by step."),
 "C36": (TV + "; pairs of runs compared outside the cells a difference can have reached", "Model: every step of bounded worlds with any one cell changed; runs: sampled worlds, values compared exactly."),
 "C37": ("TLA+ specification of what a file says (quantities, units, cells, provenance); recorded files validated with TLC", "Sampled runs and data of all sources; CMIP data carry no global attributes and are not asked for them."),
 "C38": (TV + "; forcing derived from the raw data by the specification (TLC), intermediate files not consulted", "Sampled raw data of all sources; tolerance 0.0023 kg m-2 per output interval."),
 "C39": (T + "datasets enumerated by TLC and combinations of them given to the real function, its reports validated against the specification", "Every single damage of the model and sampled combinations; files written by preprocessing on sampled grids and calendars."),
 "C40": (T + "calendars defined day by day and model checked; recorded preprocessing runs in every pair of calendars validated against it", "All pairs of data and configured calendar for CMIP, sampled ones for ERA5; sampled periods."),
}
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines()]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, note = CLAIMED[i][:2]
        m["checks"].append({"property": i, "quick_cmd": f"./run {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run {i}", "technique": t,
                            "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet"})
m["notes"] = "TLA+ / TLC; see DESIGN.md"
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
