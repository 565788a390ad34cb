#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
CLAIMED = {
 "C01": ("grammar-based generation against an exact reference output", "Every generated document is compared with its own tokens; nothing is trusted but the generator's grammar."),
 "C02": ("differential testing of scripted reader histories against the string API", "The string API is the oracle (decided by C01); source and consumer behaviour are scripted per call."),
 "C04": ("grammar-based generation against an independent CSS Syntax 3 parser", "Source and output are parsed by the harness's own tokenizer and parser and compared structurally; the parser is trusted."),
 "C05": ("grammar-based generation with an invariant over the output's tokens", "The harness's CSS tokenizer is trusted."),
 "C06": ("grammar-based generation plus injected damage, differential on accept/reject", "The generator's grammar says what is well-formed, the injected damage what is not."),
 "C07": ("grammar-based generation against the acorn parser's syntax trees", "acorn 8 (vendored) parses source and output; trees are compared without positions."),
 "C08": ("metamorphic testing: two layouts of one token sequence, plus comment accounting", "The generator's token list is the reference."),
 "C09": ("grammar-based generation; substituting the values back, compared through acorn's syntax trees", "acorn 8 parses both programs; names and values are resolved by the oracle."),
 "C10": ("grammar-based generation; substituting array elements back, compared through acorn's syntax trees", "acorn 8 parses both programs; the array is resolved by the oracle."),
 "C11": ("reference model of selective cleaning over generated token lists and callbacks", "The model is written from the documentation and the statement."),
 "C12": ("reference model of replacement and lookup over generated token lists", "The generator knows where each declaration's name and value are."),
 "C13": ("grammar-based generation against an independent HTML tokenizer", "Source and output are tokenized by the harness and compared after leaving out what may go; the tokenizer is trusted."),
"C14": ("grammar-based generation against an independent HTML tokenizer", "As C13, with exact texts and conditional comments."),
"C15": ("fuzzing of every entry point with damaged, random, deep and long inputs", "Panics and crashes are caught per case; 40 s of CPU time for one input counts as a hang."),
"C16": ("metamorphic testing: minifying the minified text", "The text itself is the oracle."),
"C17": ("fault injection: scripted writers, differential against to_string", "to_string is the oracle; the writer's behaviour is scripted per call."),
"C18": ("metamorphic testing over histories of calls, threads and processes", "The first outcome of a call is the oracle for all others."),
"C21": ("grammar-based generation; the token list laid over the source, literals and comments against acorn's", "acorn 8 (vendored) finds the literals and comments; the rest is compared with the source text itself."),
"C22": ("differential testing of the variants of each function over generated token lists and callbacks", "Each variant is the oracle of the other; C07 to C11 decide the plain ones."),
"C23": ("reference model of the token methods over generated token lists, characters and words", "The table by kind is written from the statement."),
"C24": ("grammar-based generation of programs with repeated long strings; counting in the output", "The generator knows which strings stand as values and how often."),
"C25": ("metamorphic testing: lengths of source and output over generated and damaged texts", "Lengths are the oracle; acorn decides which JS is valid."),
"C26": ("property-based testing of long and endless streams with a counting allocator", "The allocator counts bytes of the thread that calls; 256 KiB is the bound for memory and for read-ahead."),
"C27": ("property-based testing of scaling: CPU time and memory for a generated text over and over against a quarter of it", "CPU time, in ticks of 10 ms, least of three runs; a failure needs 0.8 s for 400 KB (or 400 MiB) and seven times the time of 100 KB."),
"C28": ("metamorphic testing: two pieces one behind the other against each of them alone", "The code under test next to a neutral piece is the oracle; C01, C04 to C08 and C13 decide the piece itself."),
"C19": ("generated runs of the built binary against a model of the file system", "The model of where files go is the harness's; the library gives their contents."),
"C20": ("fault injection: generated runs of the built binary with bad inputs, against a model of the file system", "As C19."),
"C03": ("fault injection over scripted reader histories", "std::str::from_utf8 decides validity; the prefix relation uses the string API."),
}
checks = [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
           "technique": CLAIMED[i][0], "level": "exploration", "level_note": CLAIMED[i][1]} for i in ids if i in CLAIMED]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": "Check under construction; not claimed yet."} for i in ids if i not in CLAIMED],
     "notes": "No hooks: the checks use minifier's public API and its binary only."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
