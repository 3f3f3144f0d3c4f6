#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 spec.py rewrites both."""
import json, os
VERIF = os.path.dirname(os.path.abspath(__file__))
S = 'heclib/heclib_c/src/'
def m(name, where): return {'name': name, 'where': where}
PROPS = []; NA = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, note=None, na=None):
    a = {'files': files, 'mechanism': mech, 'hook_needed': None}
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    PROPS.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a}, note, na))

prop('P01', 'A stored record is read back exactly as it was stored',
 'After a store of a text, text-table, array, paired-data, grid, TIN, location or raw record reports success, every later read of that pathname returns exactly the stored content (values, sizes, labels, units, headers) until another operation changes it, whether read through the same handle, after closing and reopening, or by a new process. Names are case insensitive, and a record that was never stored is reported as not found.',
 ['inputs', 'programs', 'configurations'], 'every record type, size and shape, every sequence of stores, overwrites (growing, shrinking, empty parts), closes and reopens, and every hash-table and directory-bin configuration of the file',
 'The tests write a few fixed records of each type once and read them back; sizes at alignment and buffer boundaries, overwrite sequences and other file configurations are not sampled.',
 [S + 'DssInterface/v6and7/zread.c', S + 'Internal/zwriteInternal.c', S + 'Internal/zreadInternal.c', S + 'Internal/zwriteExisting.c', S + 'Public/zspatialGridStore.c', S + 'Public/zpdStore.c'],
 [m('write path: directory entry, info block, data areas', S + 'Internal/zwriteInternal.c'), m('in-place overwrite when the record still fits', S + 'Internal/zwriteExisting.c'), m('read path', S + 'Internal/zreadInternal.c')],
 observe=['z*Store / z*Retrieve', 'zwrite / zread', 'hec_dss_*'])
prop('P02', 'Regular time series return exactly the values written for each time slot',
 'A regular-interval time series is a map from time slots to values, quality, notes: storing a window changes exactly the slots of that window according to the storage mode (replace, fill missing only, keep existing over missing), and retrieving any window returns the current value of every slot and missing for slots never written, across all record blocks and intervals; storing without quality or notes leaves those of the other slots as they were. Date ranges reported for a series cover its data.',
 ['inputs', 'programs', 'histories'], 'every interval from one minute to one month, window position and length (across any number of blocks, leap years, block ends), storage mode, value width, quality and note combination, and every sequence of overlapping stores, deletes and reads',
 'Tests use a handful of windows and mostly single blocks; overlap histories with missing values, mixed notes and block-crossing windows are an unbounded space.',
 [S + 'Internal/ztsStoreReg7.c', S + 'Internal/ztsRegStoreBlock.c', S + 'Internal/ztsRegReadBlock.c', S + 'Internal/ztsRetrieveReg7.c', S + 'Public/ztsStore.c', S + 'Public/ztsRetrieve.c'],
 [m('splitting a window into blocks', S + 'Internal/ztsStoreReg7.c'), m('merge with the block already on file', S + 'Internal/ztsRegStoreBlock.c'), m('repeat compression of blocks', S + 'Internal/ztsRegStoreBlock.c')], observe=['ztsStore', 'ztsRetrieve', 'hec_dss_tsStoreRegular', 'hec_dss_tsRetrieve'])
prop('P03', 'Irregular time series keep exactly the set of timed values written',
 'An irregular time series is a map from times to values, quality and notes: a merging store adds or replaces the given times only, a replacing store removes what lay between the first and last given time and puts the given values there, and retrieval of any window returns exactly the values whose times lie in it, in order. No value outside the stored span is changed or lost.',
 ['inputs', 'programs', 'histories'], 'every block size (day to decade), time pattern, granularity base date, value width, note kind, storage mode, and every sequence of overlapping merges, replacements, deletes and reads',
 'Tests merge two or three fixed patterns; insertion before, between, across and after existing values in several blocks with notes of varying length is not covered.',
 [S + 'Internal/ztsStoreIrreg7.c', S + 'Internal/ztsIrregStoreBlock.c', S + 'Internal/ztsIrregMergeBlocks.c', S + 'Internal/ztsIrregReadBlock.c', S + 'Internal/ztsRetrieveIrreg7.c'],
 [m('merge of new times with the block on file', S + 'Internal/ztsIrregMergeBlocks.c'), m('per-block store', S + 'Internal/ztsIrregStoreBlock.c')], observe=['ztsStore', 'ztsRetrieve', 'hec_dss_tsStoreIregular'])
prop('P04', 'An operation on one record never changes any other record',
 'Storing, growing, shrinking, deleting, renaming or duplicating a record leaves the content, existence and type of every other record unchanged, including when the space of deleted, moved or replaced records is given to new data. The file\'s integrity check finds no damage after any such history.',
 ['programs', 'histories', 'configurations'], 'every history of updates over any mix of record types and sizes, with space reclamation off, on, or on without undelete',
 'The tests run with few records and almost no deletions followed by reuse; which freed region is given to which later record depends on the whole history.',
 [S + 'Internal/zgetFileSpace.c', S + 'Internal/zreleaseFileSpace.c', S + 'Internal/zwriteExisting.c', S + 'Internal/zwriteNew.c', S + 'Internal/zdeleteInternal.c', S + 'Internal/zreclaimRead.c'],
 [m('free-space table', S + 'Internal/zreleaseFileSpace.c'), m('first-fit reuse', S + 'Internal/zgetFileSpace.c')], state=[{'name': 'free-space table', 'meaning': 'regions of the file that may be reused', 'where': S + 'Internal/zreclaimRead.c'}])
prop('P05', 'Catalog, record count and record types agree with the records in the file',
 'The catalog lists exactly the records that exist, each once, with the right type; a catalog with a pattern lists exactly the existing records that match it; and the record count and the existence and type queries agree with it, after every operation and after reopening. The integrity check passes throughout.',
 ['programs', 'histories', 'configurations'], 'every history of stores, deletes, undeletes, renames and duplicates over any number of records, with any distribution over hash slots and directory bins (overflow bins, reused entries, full bins)',
 'Tests catalog small files with the default large hash table, so chains of directory bins, entry reuse inside bins and their interaction with rename and delete are not reached.',
 [S + 'Internal/zbinUpdate.c', S + 'Internal/zbinNew.c', S + 'Internal/zcheckInternal.c', S + 'Internal/zcatalogInternal.c', S + 'Public/zcatalog.c', S + 'DssInterface/v6and7/zdataType.c'],
 [m('hash table to bin chains', S + 'Internal/zcheckInternal.c'), m('insertion into bins', S + 'Internal/zbinUpdate.c'), m('catalog scan', S + 'Internal/zcatalogInternal.c')], observe=['zcatalog', 'hec_dss_catalog', 'hec_dss_record_count', 'zcheck', 'zdataType'])
prop('P06', 'Delete, undelete, rename and duplicate have their stated effect, and only that',
 'A deleted record is no longer found, and undeleting it (when it reports success) brings back exactly its last content; a rename makes the same content available under the new name only; a duplicate gives a second, independent record with the same content. Each reports failure, and changes nothing, when its source does not exist.',
 ['programs', 'histories'], 'every history of these operations over every record type, including onto names that exist, existed or were renamed, names of different length and names that differ only in case',
 'Tests exercise one delete and a simple rename; chains (rename onto a deleted name, undelete after reuse, duplicate then delete the source) are not sampled.',
 [S + 'DssInterface/v6and7/zdelete.c', S + 'Internal/zdeleteInternal.c', S + 'DssInterface/v6and7/zundelete.c', S + 'Public/zrename.c', S + 'Public/zduplicateRecord.c', S + 'Internal/zcopyRecordInternal.c'],
 [m('status word of the directory entry and of the info block', S + 'Internal/zdeleteInternal.c'), m('rename: new directory entry, old one marked', S + 'Public/zrename.c')])
prop('P07', 'Squeezing a file removes dead space and nothing else',
 'After a squeeze, in place or through a replacement file, every record has exactly the content and type it had, deleted records are gone, the catalog, count and integrity check are right, and the same handle as well as new ones go on working for reads and updates.',
 ['programs', 'histories', 'configurations'], 'every file that can be built by a history of updates over all record types and file configurations, squeezed any number of times in between',
 'Tests squeeze one or two files and compare record counts; content equality over all record types, further updates through the same handle and non-default file configurations are not checked.',
 [S + 'Public/zsqueeze7.c', S + 'Public/zcopyFile.c', S + 'Internal/zcopyRecordInternal.c', S + 'Internal/zpermRead.c'],
 [m('copy of all records to a new file', S + 'Public/zcopyFile.c'), m('replacement of the file contents', S + 'Public/zsqueeze7.c')], observe=['zsqueeze7', 'hec_dss_squeeze'])
prop('P08', 'Copying records or whole files preserves content and spares the rest',
 'Copying a record to another file gives the destination exactly the source\'s content under the requested name, and copying a file does so for every existing record; the source is unchanged, records of the destination that are not copied are unchanged, and deleted records are not copied.',
 ['programs', 'histories', 'configurations'], 'every pair of files with any contents and configurations, every sequence of record copies, file copies and other updates on both',
 'Tests copy a few records into an empty file; overwriting existing destinations of other sizes, location records that travel along, and copies interleaved with updates are not covered.',
 [S + 'DssInterface/v6and7/zcopyRecord.c', S + 'Public/zcopyFile.c', S + 'Internal/zcopyRecordInternal.c'],
 [m('scan of the source file for info blocks', S + 'Public/zcopyFile.c'), m('verbatim transfer of a record', S + 'Internal/zcopyRecordInternal.c')])

exec(open(os.path.join(VERIF, 'spec_more.py')).read()) if os.path.exists(os.path.join(VERIF, 'spec_more.py')) else None

def main():
    import profiles
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p, note, na in PROPS: f.write(json.dumps(p) + '\n')
    checks = []; nas = []
    base = 'Seeded search, not proof: a silent run means no counterexample among the runs counted in the evidence file. The whole library runs unmodified over a simulated file system, clock, allocator and process scheduler; the reference model in sim/oracle.cpp is trusted.'
    for p, note, na in PROPS:
        if na: nas.append({'property': p['id'], 'reason': na}); continue
        if p['id'] not in profiles.PROFILES: nas.append({'property': p['id'], 'reason': 'check not built yet'}); continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'] + ' --tier quick', 'thorough_cmd': 'python3 check.py ' + p['id'] + ' --tier thorough', 'evidence_file': 'evidence/%s.json' % p['id'],
          'technique': 'deterministic simulation with fault injection: seeded search over programs, schedules and faults against a reference model', 'level': 'exploration', 'level_note': base + (' ' + note if note else '')})
    man = {'version': 1, 'setup_cmd': 'python3 build.py', 'checks': checks, 'not_applicable': nas, 'notes': 'No hooks in /repo: every seam is at link time (ld --wrap of libc calls), so the library is compiled unchanged from the working tree. Genuine defects found: known/findings.json (recorded) and known/fixed.txt (repaired).'}
    json.dump(man, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(VERIF, 'MANIFEST.json'), 'a').write('\n')
if __name__ == '__main__': main()
