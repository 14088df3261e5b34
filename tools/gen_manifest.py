#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present and the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

T = {
    "C01": ("abstract interpretation of reader and writer into value-flow graphs; agreement of slots per record column",
            "every slot of every record of the TOUGH input blocks, all parameter presence combinations; trusts the interpreter's model of Python and numpy"),
    "C11": ("value-flow extraction of the face and volume expressions per cell type, compared with the cell's convex hull",
            "all supported 3D cell types; identity of extracted rational expressions is tested at fixed affine and projective images of the reference cells"),
}
T.update({
    "C02": ("evaluation of the layout tables from source, compared field by field with TOUGH's published columns; every record found in the extracted reader and writer",
            "all blocks, label lengths 5 to 9; the published columns are transcribed by hand"),
    "C13": ("abstract interpretation over arrays of known shape and symbolic content; every per-face quantity compared with the face it is listed for",
            "all cell types, mixed faces, cylindrical mesh; small representative meshes stand for all sizes (uniformity over the number of cells is assumed)"),
    "C18": ("abstract interpretation of the mesh export into records of symbolic values, compared with the input reader's slots",
            "ELEME, COORD, CONNE, INCON records from representative meshes; trusts the interpreter's model of Python and numpy"),
    "C28": ("extraction of the expressions computed for volumes, areas, distances, cosines, and comparison as rational functions with the geometry of the cell",
            "identity of extracted expressions is tested at fixed images of the reference cells; real-number semantics, no rounding"),
})
T.update({
    "C01": ("abstract interpretation of writer and reader composed over symbolic parameters and abstract text (value-origin analysis): every parameter followed from the dictionary through its columns back into the dictionary",
            "files of hundreds of presence/length/label shapes of every block with symbolic numbers; trusts the interpreter's model of Python, numpy and of text"),
    "C03": ("abstract interpretation of writer, mesh export and reader over classes of numbers (sign, integer digits, exponent digits): columns occupied by every formatted value",
            "worst-case text lengths per class; every parameter, label length, and text/None variant from the full parameter set"),
    "C04": ("abstract interpretation of the writer into abstract files; block headings, order and terminators compared with those recognised in the interpreted reader",
            "all block presence combinations up to pairs, partial writes, labels 5 to 9"),
    "C08": ("abstract interpretation of the writer (certain-failure analysis) with each parameter omitted or None, taken singly and in pairs",
            "one and two omissions at a time from the full parameter set; failures are reported only where every path of the interpretation fails"),
    "C20": ("abstract interpretation of the reader on abstract files with each field blanked (certain-failure and origin analysis)",
            "one blank field, short line or stripped line at a time from the files of the full parameter set, and all omissions the writer can produce"),
    "C23": ("abstract interpretation of the writer: origin sets of the produced file, and refusal of wrong types by path analysis",
            "every declared name of every group; names and types transcribed from the documentation"),
})
T.update({
    "C14": ("abstract interpretation of the result readers and writers on abstract tables whose numbers are unknown: origin of every value returned under a heading",
            "all formats, 1 to 3 times, 1 to 6 columns, labels 5 to 9; trusts the interpreter's model of Python, numpy and of text"),
    "C15": ("abstract interpretation of the model classes with symbolic parameters; extracted formulas compared with the published ones; refusals decided by path",
            "identity of formulas tested at fixed points within every interval delimited by their constants and parameters; real-number semantics; NaN not covered"),
})
T.update({
    "C05": ("abstract interpretation with a heap: every object reachable from the arguments compared before and after the call (escape and effect analysis)",
            "about 135 scenarios covering every public operation with lists, tuples, arrays, views; representative sizes; trusts the interpreter's model of Python and numpy aliasing"),
    "C19": ("abstract interpretation with a heap: effects on module-level objects, results aliasing them, and repeatability of every operation",
            "about 135 scenarios covering every public operation; state of third-party libraries not followed"),
})
T.update({
    "C21": ("abstract interpretation of the JSON writer composed with the reader over symbolic parameters of every accepted type; comparison of the trees",
            "about 700 parameter sets, numbers unknown; the json module is modelled"),
})
T.update({
    "C09": ("abstract interpretation of every operation with each container type: results, object states and files compared; certain failures reported",
            "about 75 operations and every list of the input parameters, lists, tuples, arrays and rows of them; small sizes"),
})
T.update({
    "C17": ("abstract interpretation of every reordering operation with one distinct symbol per entry of every attached array; the symbols found at a place must name the entity standing there",
            "about 500 operations: meshes of several blocks and dimensions, scalar and vector data, all orders of three labels and some of four and five; geometry concrete, data symbolic"),
})
T.update({
    "C16": ("abstract interpretation of the commands on symbolic result files with every option, its parser included; files written and calls of the writers compared with what the options ask for",
            "about 300 command lines of the five commands; symbolic results, concrete coordinates; meshio, scipy, pickle, shutil and argparse modelled"),
})
T.update({
    "C10": ("abstract interpretation of the package as it is imported, then of the public functions for every format, extension, heading and command; the function reached and its arguments compared with what was asked",
            "all formats of the three registries, documented extensions and options; dispatch only: what readers and writers do is in other properties"),
    "C26": ("abstract interpretation of every public function with one argument of the wrong kind or out of range: every path must stop, with no file opened and no reachable object changed before (effect analysis)",
            "about 660 calls: representative wrong values and edge values of every checked argument; boolean masks not covered"),
    "C12": ("abstract interpretation of the writers and readers of the mesh formats on meshes with distinct node numbers; the file left is compared with the numbering of each format, and read back; code tables queried",
            "every cell type alone, mirrored and in mixed meshes, in several places and turns; tables of the formats as published; float formatting not covered"),
    "C24": ("abstract interpretation of the labeler with the cell index kept as mixed-radix digits of an unknown number; distinctness decided from the radices and the tables",
            "every label length 5 to 9, numbers of cells at every turn of a digit up to the capacity (3.185e10); about 370 obligations"),
    "C25": ("abstract interpretation of the FLAC3D writer and reader in both variants on the same meshes; sections compared field by field; files of other programs with their sections in every order and their own numbers",
            "about 100 meshes, 24 layouts, 60 foreign grids; names with blanks not compared between variants"),
})
NA = {
    "C27": "quantifies over the numerical range of formulas for all real saturations and parameters: no sound static bound in reach (non-monotone compositions of powers with user parameters)",
    "C29": "numerical round trip of values through fixed-width formatting is a statement about floating-point values; its structural parts are C01, C02, C03",
    "C30": "bounds of interpolated values depend on third-party interpolation numerics",
}


def main():
    props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists("{}/checks/{}.py".format(HERE, i.lower())) and i in T:
            checks.append({
                "property": i,
                "quick_cmd": "python3 check.py {} quick".format(i),
                "thorough_cmd": "python3 check.py {} thorough".format(i),
                "evidence_file": "evidence/{}.json".format(i),
                "technique": T[i][0],
                "level": "other",
                "level_note": T[i][1],
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "no static check has been built for it yet")})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
    with open(HERE + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks", len(na), "not applicable")


main()
