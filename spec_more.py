I = S + 'Internal/'; U = S + 'Public/'
prop('P09', 'Last-write times and the list of changed records are exact',
 'The last-write time reported for a record lies between the start and the end of the operation that last wrote its data (a copy keeps the time of its source), and a change query started at some point on an open handle lists every record matching its pattern that was written or created since, and no record that was left alone, including changes made by other programs, whatever the wall clock does in between as long as it does not run backwards; a query by content (CRC) lists the records whose stored content differs. Records that were renamed or undeleted since may be listed; the starting point ends when the handle is closed or the file is squeezed.',
 ['histories', 'schedules', 'fault_sequences'], 'every history of updates by any number of programs between the start of the query and the query, with clock jumps between operations',
 'Tests sleep for a moment, write one record and look for it; overwrites in place, reuse of space, several writers and clock jumps are not covered.',
 [U + 'zwhatChanged.c', U + 'zwhatChangedSetStart.c', U + 'zwhatChangedCompare.c', U + 'zgetLastWriteTimeRec.c', I + 'zwriteExisting.c'],
 [m('time in directory entry and info block', I + 'zwriteExisting.c'), m('comparison with the saved catalog', U + 'zwhatChangedCompare.c')], observe=['zgetLastWriteTime', 'zwhatChanged', 'zgetRecordBasics'])
prop('P10', 'Programs writing one file at the same time lose none of each other\'s updates',
 'When several programs open one file for writing and store, delete and catalog records at the same time, every operation that reports success takes effect and stays, as if the operations on each record had happened one after the other in an order consistent with real time; no record that nobody touches is changed, no update is refused for lack of a lock the program waited for, and the file passes its integrity check.',
 ['schedules', 'programs', 'configurations'], 'every interleaving of the system calls of up to four programs, in every access mode, with processes stalled at any point, starting from any file',
 'The tests are single-process; the locking protocol (advisory mode, hand-over to multi-user mode, header re-reads) is only exercised when two programs interleave at particular system calls.',
 [I + 'zlockActive.c', I + 'zlockPassive.c', S + 'System/zlockdss.c', I + 'zcheckMultiUser.c', I + 'zpermRead.c', I + 'zwriteInternal.c', I + 'zflushToDisk.c'],
 [m('lock, header re-read, header write, unlock', I + 'zlockActive.c'), m('advisory lock hand-over', I + 'zcheckMultiUser.c')], state=[{'name': 'file header', 'meaning': 'file size, record count, free space; cached per program', 'where': I + 'zpermRead.c'}])
prop('P11', 'Programs sharing a file always make progress',
 'Every operation of a program that shares a file with others returns within a bounded time once the others are not stalled: programs never deadlock, a lock is not kept by a program that finished its operation (except by a program that asked for exclusive access or is still the only writer and hands over when asked), and the death or close of a program releases what it held.',
 ['schedules', 'crash_points'], 'every interleaving of up to four programs with kills, stalls and closes at any system call',
 'Needs several processes and particular interleavings; single-process tests cannot block.',
 [I + 'zlockActive.c', I + 'zcheckMultiUser.c', I + 'zlockPassive.c', S + 'DssInterface/v6and7/zclose.c'],
 [m('waiting for the lock and giving it up', I + 'zlockActive.c')])
prop('P12', 'A program sees what another program has finished writing',
 'Once an operation of one program has returned success, every read, existence query and catalog that another program (with the file already open, in whatever mode, or opened afterwards) starts later sees its effect, and never a mixture of old and new content of one record.',
 ['schedules', 'histories'], 'every interleaving of readers in each access mode with writers in each access mode, including records moved, deleted, re-created and files squeezed between reads of the same handle',
 'Tests open one handle at a time; caches in the handle (header, directory bin, last path checked) only go stale when another program writes.',
 [I + 'zcheckInternal.c', I + 'zpermRead.c', I + 'zreadInfoBlock.c', I + 'zcatalogInternal.c', I + 'zget.c'],
 [m('cache of the last directory bin and path', I + 'zcheckInternal.c'), m('header re-read on check', I + 'zpermRead.c')])
prop('P13', 'Access modes are honoured',
 'A file opened for reading only, or that the user may not write, is never modified through that handle, and every update through it is refused without effect; exclusive access to a file is only given while no other program has the file open for access that may write, and a file opened for exclusive access is not written by anyone else meanwhile; refusing to open or to write is reported.',
 ['programs', 'configurations', 'schedules'], 'every operation of the API through a read-only handle or file, and every mixture of access modes of several programs on one file',
 'Tests open read-only once; that each of the many updating operations is refused in every mode is not covered.',
 [S + 'DssInterface/v6and7/zopenExtended.c', I + 'zopenInternal.c', S + 'System/zopendisk.c', I + 'zwriteInternal.c', I + 'zlockActive.c'],
 [m('access decision at open', I + 'zopenInternal.c'), m('write permission check', S + 'DssInterface/v6and7/zwrite.c')])
prop('P14', 'A program killed while writing harms at most the record it was writing',
 'When a program is killed at any point of an operation (space reclamation off, as by default), every record other than the one being written (for time series: other than the data set being written) has exactly its content and existence afterwards, whether read in the restarted program or by a new one; the file opens for reading and writing and passes the file check; the catalog lists every other record exactly once; and later stores, deletes, undeletes, renames and copies of other records succeed, as does writing the interrupted record again.',
 ['crash_points', 'programs'], 'a kill at every system call, or part way through any write, of any operation in any history, several times in a row',
 'Tests never stop in the middle of an operation.',
 [I + 'zwriteNew.c', I + 'zwriteExisting.c', I + 'zbinUpdate.c', I + 'zbinNew.c', I + 'zgetFileSpace.c', I + 'zcatalogInternal.c', I + 'zlockActive.c', U + 'zrename.c', I + 'zdeleteInternal.c'],
 [m('order of space, directory, info, data and header writes', I + 'zwriteNew.c'), m('a bin is linked only once it exists', I + 'zbinNew.c'), m('the new end of the file is saved before it is used', I + 'zgetFileSpace.c')])
prop('P15', 'After a power loss, finished operations in multi-user mode are still there',
 'In multi-user access mode, when the machine stops (what had not been synchronised is lost, in any part and any order), every record (for time series: data set) whose operations had returned before, and that no program was updating at that moment, has exactly its content and existence after the restart and is listed exactly once; the file opens for reading and writing; and later operations on those records succeed and do not disturb each other. Nothing is promised about the record being updated when the power went, nor about a file that was just being created.',
 ['crash_points', 'fault_sequences'], 'power loss at every system call of any operation of any history, several times in a row, one or two programs, with nothing, an ordered prefix or any subset of the writes not yet synchronised surviving, the last one torn',
 'Needs a disk that forgets unsynchronised writes.',
 [I + 'zflushToDisk.c', I + 'zlockActive.c', S + 'System/flushFile.c'],
 [m('synchronise before unlock', I + 'zlockActive.c')])
prop('P16', 'Disk errors are reported, and do no further harm',
 'When a system call on the file fails (read or write error, disk full, short transfer, failed seek, sync, open, lock or close), the operation it belongs to either has its full effect or reports failure; no operation, then or later, returns success with data that was never stored; every record the failing operation was not updating keeps its content and existence, is listed exactly once and can be updated; later operations on such records succeed once the fault is over; and the program does not crash, hang or keep the file locked. Nothing is promised about a record an update of which failed, nor about the sort files of a sorted catalog.',
 ['fault_sequences', 'programs'], 'each failing system call, once or for the rest of an operation, at every point of every operation of any history',
 'Tests run on a healthy disk.',
 [S + 'System/zwritedisk.c', S + 'System/zreaddisk.c', I + 'zput.c', I + 'zget.c', I + 'zputBuff.c', I + 'zgetBuff.c', I + 'zerrorProcessing.c'],
 [m('system call results turned into status', I + 'zput.c')])
prop('P17', 'Running out of memory fails the operation, not the data',
 'When a memory allocation fails during an operation, the operation reports failure, still has its full effect, or ends the program at once at the null pointer (a crash, after which the file recovers as after a kill); it never returns wrong or partial data as a success, nothing is written to freed or foreign memory, and records not being written keep their content.',
 ['fault_sequences', 'programs'], 'each failing allocation, once or repeatedly, at every point of every operation',
 'Tests never run out of memory.',
 [I + 'zput.c', S + 'Internal/zmemoryGet.c', U + 'ztsStore.c', U + 'zpdRetrieve.c', I + 'zerrorProcessing.c'],
 [m('allocation results checked', S + 'Internal/zmemoryGet.c')])
prop('P18', 'A squeeze or file copy that is interrupted loses no record',
 'When a program is killed or a system call fails during a squeeze or a copy of a file, every record is still found with its content, under the original name or, when the copy back of an in-place squeeze was interrupted, in the complete squeezed copy in the temporary directory; until that is restored the original is refused, not taken for an empty file. A copy of a file that fails leaves the source unchanged and reports the failure.',
 ['crash_points', 'fault_sequences'], 'a kill or error at every system call of a squeeze of any file',
 'Tests let every squeeze finish.',
 [U + 'zsqueeze7.c', U + 'zcopyFile.c'], [m('replacement of the file', U + 'zsqueeze7.c')])
prop('P19', 'Operations release what they take',
 'Repeating any operation, successful or refused, leaves no growing amount of memory, open file descriptors, temporary files or file locks behind; closing a file and freeing the structures releases everything (the few error messages the library keeps until they are cleared apart), whether the operations succeeded or were refused for a wrong type, a missing record or a bad argument.',
 ['programs', 'histories'], 'every operation of the API in any state, repeated',
 'Tests do not count allocations or descriptors.',
 [S + 'DssInterface/v6and7/zclose.c', S + 'Public/zstructFree.c', U + 'ztsRetrieve.c', U + 'zcatalog.c', 'heclib/hecdss/hecdss.c'],
 [m('release of the file table', S + 'DssInterface/v6and7/zclose.c')])
prop('P20', 'The exported C interface gives the same results as the library behind it',
 'Data stored through the hec_dss_* functions is read back by them and by the z* functions exactly, catalogs, counts, types, date ranges, sizes and numbers agree, buffers given by the caller are never overrun whatever their size (text is cut and terminated within them), and a failure is reported by the return code. Sizes announced for time series are enough for every value stored, and a time window left out, or given as empty text, means all data.',
 ['inputs', 'programs'], 'every function of the interface with any valid content and any buffer size, mixed with z* calls on the same records',
 'The interface tests write a few records and read them back with ample buffers.',
 ['heclib/hecdss/hecdss.c'],
 [m('translation to library structures', 'heclib/hecdss/hecdss.c')], observe=['hec_dss_*'])
prop('P21', 'Damaged or foreign files are refused without crashing',
 'Opening, reading, cataloging or checking a file that is truncated, has damaged bytes, is empty or is not a DSS file never crashes, hangs or writes outside memory: it is refused, or records are reported missing or damaged; a file that is refused is not modified.',
 ['inputs', 'fault_sequences'], 'any damage to any part of any file',
 'Tests open well-formed files.',
 [I + 'zopenInternal.c', I + 'zreadInfoBlock.c', I + 'zcheckInternal.c', U + 'zcheckFile.c', I + 'zgetBuff.c'],
 [m('identification and version check at open', I + 'zopenInternal.c'), m('flag words at the start of structures', I + 'zreadInfoBlock.c')])
prop('P22', 'Date, time, interval, pathname and unit conversions are exact inverses',
 'Conversions between dates, Julian days, seconds, interval names, pathnames and their parts, and between the vertical datums given in a header, give the documented value for every valid input and are inverse to each other.',
 ['inputs'], 'every valid date, time, interval and pathname',
 'Unit tests sample a few values.', [S + 'Utilities/DateTime/dateToJulian.c', S + 'Utilities/DateTime/julianToDate.c', S + 'Utilities/DateTime/timeStringToSeconds.c', U + 'zpathnamePartPositions.c'],
 [m('calendar arithmetic', S + 'Utilities/DateTime/yearMonthDayToJulian.c')],
 na='These are pure functions of their arguments: no scheduling, time, I/O or multi-party behaviour for a simulator to decide. (The time series checks P02 and P03 exercise them through stored data.)')
prop('P23', 'Grid compression and aggregation keep the values',
 'Compressing and expanding grid data returns the same values within the stored precision, and aggregation and statistics are the mathematical ones.',
 ['inputs'], 'every grid', 'Unit tests sample a few grids.', ['heclib/heclib_c/src/Public/zspatialGridStore.c'],
 [m('zlib transfer of the data array', 'heclib/heclib_c/src/Public/zspatialGridStore.c')],
 na='Pure functions of their arguments; what of it reaches the file (stored grids come back exactly) is decided by P01.')
