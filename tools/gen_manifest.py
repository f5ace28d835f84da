#!/usr/bin/env python3
"""Writes MANIFEST.json from the claims below."""
import json, os
TECH = {
 'exec': 'stateless model checking of the real code: exhaustive enumeration of call histories and schedules, compared with a fixture-validated reference model',
}
REF = ' The reference model (mc/src/refc) is an independent implementation of the LASzip format; it is bound to the code and to LASzip itself by decoding and re-encoding the LASzip-written fixture files of the repository before every run.'
C = {}
def claim(p, tech, note):
    C[p] = (tech, note)
claim('C01', 'explicit exploration of codec states and point windows on the real compressor/decompressor, in lockstep with a reference model',
 'Every window of points over each field\'s boundary alphabet (stated in the evidence) is compressed and decompressed by the real code; every step is exhaustive within the alphabets. Values outside the alphabets and longer windows are not covered.')
claim('C02', 'explicit exploration of codec states, byte-by-byte comparison with a reference model of the LASzip format',
 'Every explored stream is compared byte by byte with the reference encoder and decoded from reference bytes.' + REF)
claim('C03', 'exhaustive exploration of arithmetic coder call sequences and carry chains against an exact big-integer model',
 'All symbol/bit sequences up to the stated depth, model updates included; carries up to the buffer size (known finding beyond it).')
claim('C04', 'exhaustive exploration of integer coder histories against a reference model',
 'All (prediction, value) sequences over boundary alphabets, every bit width 1..32, every context.')
claim('C05', 'exhaustive enumeration of the divisions of the points over writer calls',
 'Every division up to the stated number of points, both call interfaces, every layout.' + REF)
claim('C06', 'stateless exploration of call divisions and of thread schedules (controlled replacement of rayon-core)',
 'All schedules at fork, pop, steal and wait points up to the stated deviation bound plus one preemption at any allocation; the real work-stealing core of rayon is replaced by a controlled one (assumed to have the same interface semantics).' + REF)
claim('C07', 'stateless exploration of request divisions and of thread schedules (controlled replacement of rayon-core)',
 'As C06, for the parallel reader over reference streams of every shape up to the stated size.' + REF)
claim('C08', 'exhaustive enumeration of read/seek histories against a position model',
 'All histories up to the stated depth, both readers, every stream shape; after an error only a seek defines the position.')
claim('C09', 'exhaustive enumeration of writer call histories for variable-size chunks against a chunk model',
 'All histories up to the stated depth, both writers; files compared with the reference stream and read back by every reader.')
claim('C13', 'exhaustive enumeration of chunk tables over boundary alphabets against a reference model',
 'All tables up to the stated length over the alphabets.' + REF)
claim('C24', 'exhaustive enumeration of read histories crossing the end of the stream',
 'All histories up to the stated depth over every stream shape whose number of points is determined by the stream.')
claim('C10', 'exhaustive enumeration of append histories from every initial stream shape',
 'All initial point counts/partitions, session counts and call divisions up to the stated sizes, both appenders, several layouts; byte comparison with the stream written in one go.' + REF)
claim('C11', 'exhaustive enumeration of attribute selections times read/seek histories',
 'All selections over the nine selectable attributes for each layered layout; read/seek histories up to the stated depth; both readers and the one-shot functions. Point contents come from the stated alphabets.')
claim('C12', 'exhaustive enumeration of parameter records and of single-field deviations of their serialised form',
 'All item lists up to the stated length, versions, chunk sizes from a boundary alphabet; every byte value at every position of the deviated field; oracle: an independent record layout.')
claim('C17', 'exhaustive enumeration of start offsets times call histories on a recording device',
 'All start offsets of the stated set, all users of a stream; the device records every position read or written outside the stream.')
claim('C18', 'exhaustive enumeration of buffer sizes and point counts for the one-shot functions, with and without debug assertions',
 'All buffer lengths around whole points and chunk boundaries up to the stated size; oracle: streaming interface and the reference model.' + REF)
claim('C20', 'exhaustive enumeration of item lists over all constructors and one-shot functions',
 'All item lists up to the stated length over all item types, sizes and versions of the stated alphabets; accepted ones are then used to write and read points.')
claim('C22', 'stateless exploration of interleavings of the calls of several instances and of their threads (controlled replacement of rayon-core)',
 'All merges of the call sequences up to the stated length; all schedules up to the stated deviation bound.')
claim('C23', 'exhaustive enumeration of sequences of chunk contents, each chunk compared with the stream consisting of that chunk alone',
 'All pairs and triples over the stated chunk contents, every layout; writers, appenders and readers, also by seeking.')
claim('C14', 'exhaustive fault injection: an I/O error, short transfer or interruption at every operation of a history',
 'Every single fault position (thorough: every pair) of every history of the stated shapes, all readers, writers, appenders, table functions and the file reader.')
claim('C15', 'exhaustive crash-point enumeration: the write log cut at every byte, then read by every reader',
 'Writes reach the device in order and are cut at a byte; point contents from the stated alphabets, which do not themselves contain a complete chunk table.')
claim('C16', 'exhaustive enumeration of streams whose chunk table is missing, torn or unreachable',
 'All layouts of the stated set, offset fields, table prefixes and combinations of failing positioning calls; point contents from the stated alphabets.')
claim('C19', 'exhaustive enumeration of points over the field alphabets of the point types against an independent field layout',
 'Every field over a boundary alphabet, all pairs of bit fields; oracle: an independent description of the LAS point formats.' + REF)
claim('C21', 'exhaustive enumeration of LAS headers, records and read histories of the file reader against an independent file model',
 'All versions, point formats, record lists up to the stated length, extra bytes of the stated set; compressed and uncompressed files.')
exec(open(os.path.join(os.path.dirname(__file__), 'more_claims.py')).read()) if os.path.exists(os.path.join(os.path.dirname(__file__), 'more_claims.py')) else None
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
NA = {}
out = {
 'version': 1,
 'setup_cmd': './build.sh',
 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks use the public interface of the crate (feature "parallel") with rayon-core replaced by /verif/rayon-core-mc through a [patch] of the harness crate', 'source_commits': []},
 'checks': [{'property': p, 'quick_cmd': f'./check.sh {p} quick', 'thorough_cmd': f'./check.sh {p} thorough', 'evidence_file': f'evidence/{p}.json',
             'technique': C[p][0], 'level': 'model_checking', 'level_note': C[p][1]} for p in props if p in C],
 'not_applicable': [{'property': p, 'reason': NA.get(p, 'check not built yet')} for p in props if p not in C],
 'notes': 'One binary (mc) holds all checks; ./check.sh <property> [quick|thorough] rebuilds it from /repo and runs one property. See DESIGN.md.',
}
json.dump(out, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
