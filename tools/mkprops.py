"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                observe_at=observe,
                hook_needed=hook,
            ),
        )
    )


prop(
    "C01",
    "Lazy loading gives the eager data under every schedule",
    "For every format that can be loaded lazily, the lazily loaded data have the same shape and dtype "
    "and the same axes and metadata as the eagerly loaded ones, and computing them, whole or in part, any number of times "
    "and under any task order, worker count, thread interleaving or chunking, gives exactly the eagerly "
    "loaded values. Several lazy arrays, of the same or of different files, computed at the same time "
    "do not influence each other.",
    ["schedules", "configurations", "inputs"],
    "every lazily readable file and reader option, every `chunks`, every part of the array, every order and "
    "interleaving in which the tasks of the graphs may run",
    "the tests compute each lazy array once, whole, with whatever schedule the thread pool happened to take; "
    "a handle, buffer or module variable shared between tasks shows only in some interleavings",
    [
        "rsciio/utils/_distributed.py", "rsciio/tiff/_api.py", "rsciio/semper/_api.py", "rsciio/quantumdetector/_api.py",
        "rsciio/mrc/_api.py", "rsciio/blockfile/_api.py", "rsciio/tvips/_api.py", "rsciio/ripple/_api.py", "rsciio/numpy/_api.py",
        "rsciio/pantarhei/_api.py", "rsciio/empad/_api.py", "rsciio/edax/_api.py", "rsciio/tia/_api.py", "rsciio/digitalmicrograph/_api.py",
        "rsciio/bruker/_api.py", "rsciio/jeol/_api.py", "rsciio/image/_api.py", "rsciio/mrcz/_api.py", "rsciio/emd", "rsciio/nexus/_api.py",
        "rsciio/tofwerk/_api.py", "rsciio/usid/_api.py", "rsciio/_hierarchical.py",
    ],
    [
        ("every task opens its own mapping of the file (memmap_distributed / slice_memmap)", "rsciio/utils/_distributed.py"),
        ("delayed per page / per image readers", "rsciio/tiff/_api.py, rsciio/image/_api.py, rsciio/semper/_api.py, rsciio/bruker/_api.py"),
        ("dask.array.from_array over h5py / zarr datasets", "rsciio/_hierarchical.py, rsciio/nexus/_api.py, rsciio/emd"),
    ],
    ["<format>.file_reader(filename, lazy=True)", "dask compute of the returned array"],
)

prop(
    "C02",
    "Saving a lazy signal writes what saving it eagerly writes, in any schedule",
    "For every format that accepts lazy signals, writing a lazy signal produces a file that loads to the same data, axes and "
    "metadata as writing the computed signal, whatever the chunking of the data and of the file and "
    "whatever order, worker count or interleaving the write tasks take. The write terminates without deadlock.",
    ["schedules", "configurations", "inputs"],
    "every writer that accepts lazy data, every chunking of source and target, every dtype and shape, "
    "every task order and worker interleaving",
    "the tests write with the threaded scheduler of one machine and small arrays: two tasks that touch the same "
    "stored chunk, or depend on the order of blocks, lose data only in particular interleavings",
    ["rsciio/_hierarchical.py", "rsciio/hspy/_api.py", "rsciio/zspy/_api.py", "rsciio/nexus/_api.py", "rsciio/emd/_emd_ncem.py",
     "rsciio/blockfile/_api.py", "rsciio/tvips/_api.py", "rsciio/ripple/_api.py", "rsciio/tiff/_api.py", "rsciio/mrcz/_api.py"],
    [
        ("rechunk to the chunks of the target dataset before dask.array.store", "rsciio/hspy/_api.py, rsciio/zspy/_api.py"),
        ("map_blocks writing block by block into a memory map", "rsciio/blockfile/_api.py, rsciio/tvips/_api.py"),
    ],
    ["<format>.file_writer(filename, lazy signal)", "<format>.file_reader"],
)

prop(
    "C03",
    "A write that returned is complete and reads back as the signal written",
    "When a writer returns normally the file is complete in storage: if the process dies at that instant, another process "
    "reading the file obtains the data (values, dtype, shape) and the axes (size, scale, offset, units, name) that were written, as far as the "
    "format stores them. This holds for every supported signal, whatever file was there before.",
    ["crash_points", "inputs", "histories"],
    "every writer, every supported dtype, shape, axis set and option, a crash immediately after the "
    "writer returned, every earlier content of the target path",
    "tests read back in the same process, where open handles, unflushed buffers and interpreter shutdown hide what "
    "is not yet in storage, and for a handful of signals",
    ["rsciio/hspy/_api.py", "rsciio/zspy/_api.py", "rsciio/_hierarchical.py", "rsciio/nexus/_api.py", "rsciio/emd/_emd_ncem.py", "rsciio/blockfile/_api.py",
     "rsciio/tvips/_api.py", "rsciio/ripple/_api.py", "rsciio/mrcz/_api.py", "rsciio/msa/_api.py", "rsciio/pantarhei/_api.py",
     "rsciio/semper/_api.py", "rsciio/tiff/_api.py", "rsciio/image/_api.py", "rsciio/digitalsurf/_api.py", "rsciio/numpy/_api.py"],
    [("file closed / flushed before returning", "every file_writer"), ("dataset and metadata encoders and their decoders", "rsciio/_hierarchical.py and each writer")],
    ["<format>.file_writer", "bytes on disk at return", "<format>.file_reader in a fresh process"],
)

prop(
    "C04",
    "A write that hits a storage error never reports success with bad data",
    "When the storage fails during a write (disk full, I/O error, short or interrupted write, failing open or close), the writer "
    "either raises or has written a file that reads back as the signal; it never returns normally leaving a file that is incomplete or wrong. "
    "It terminates, and repeating the write after the fault is gone succeeds in the same process.",
    ["fault_sequences", "inputs"],
    "every writer and every storage operation it performs, each failing with each error kind, followed by a retry without faults",
    "the tests never make storage fail",
    ["rsciio/hspy/_api.py", "rsciio/zspy/_api.py", "rsciio/nexus/_api.py", "rsciio/emd/_emd_ncem.py", "rsciio/blockfile/_api.py", "rsciio/tvips/_api.py",
     "rsciio/ripple/_api.py", "rsciio/mrcz/_api.py", "rsciio/msa/_api.py", "rsciio/pantarhei/_api.py", "rsciio/semper/_api.py",
     "rsciio/tiff/_api.py", "rsciio/image/_api.py", "rsciio/digitalsurf/_api.py"],
    [("errors of the file layer propagate; files are closed on failure", "every file_writer")],
    ["<format>.file_writer", "system calls on the target files"],
)

prop(
    "C05",
    "Failing reads and damaged files never load silently as other data",
    "When reading hits a storage error, or the file was cut short at any byte by an interrupted copy or a killed writer, the reader "
    "either raises an exception, or returns the data of the intact file, or warns that data are missing; it never returns "
    "different data without a warning. It terminates in bounded time without ending the process, and the same call succeeds once the fault is gone.",
    ["fault_sequences", "crash_points", "inputs"],
    "every reader, lazy and eager, every read operation it performs failing or coming back short, and every truncation length of the file",
    "the tests read intact files from storage that works",
    ["rsciio/*/_api.py", "rsciio/utils/_distributed.py", "rsciio/utils/_readfile.py", "rsciio/_hierarchical.py"],
    [("length checks, reshape to the size the header promises, mapping with an explicit shape", "each file_reader"),
     ("documented zero padding with a warning", "rsciio/blockfile/_api.py, rsciio/tvips/_api.py, rsciio/quantumdetector/_api.py")],
    ["<format>.file_reader", "system calls on the source files", "warnings and log records"],
)

prop(
    "C06",
    "Files are released after reading or writing, also when it fails",
    "After an eager read or any write has returned or raised, for whatever reason and at whatever point, no file opened by it stays open: the file can be "
    "deleted, renamed and rewritten. A lazy read that raises releases its files too, and dropping the lazily loaded "
    "data releases the rest.",
    ["fault_sequences", "histories", "crash_points"],
    "every reader and writer, success, every failing storage operation, and an exception "
    "(KeyboardInterrupt, MemoryError) at any point of the call",
    "the tests delete files only after success; which handles stay open after a failure at one of the "
    "hundreds of possible points cannot be sampled by hand",
    ["rsciio/*/_api.py", "rsciio/_hierarchical.py", "rsciio/emd/_emd_ncem.py", "rsciio/nexus/_api.py", "rsciio/hspy/_api.py", "rsciio/zspy/_api.py"],
    [("with blocks, try/finally close", "each file_reader / file_writer"), ("tracking of handles held by lazy arrays", "rsciio/hspy/_api.py")],
    ["open file descriptors and HDF5 identifiers of the process after the call"],
)

prop(
    "C07",
    "The result of a read or write does not depend on earlier calls",
    "Reading a file, or writing a signal and reading it back, gives the same result whatever reads and writes, successful or "
    "failed, of the same or other formats, the process performed before. "
    "Changing an object that one call returned never changes what a later call returns.",
    ["histories", "fault_sequences"],
    "every sequence of reads, writes, failed calls and in-place changes of returned objects in one process",
    "each test asserts on one call; state left over in module variables, default arguments, class attributes or "
    "caches shows only after particular predecessors",
    ["rsciio/*/_api.py", "rsciio/_hierarchical.py", "rsciio/hspy/_api.py", "rsciio/msa/_api.py", "rsciio/digitalsurf/_api.py", "rsciio/bruker/_api.py"],
    [("module constants are not modified; mutable defaults are copied", "every module"), ("per file handle registry", "rsciio/hspy/_api.py")],
    ["file_reader / file_writer results in one process against the same call in a fresh process"],
)

prop(
    "C08",
    "Writers and readers leave the caller's objects and process settings unchanged",
    "Writing a signal, whether it succeeds, fails or is interrupted, leaves the signal dictionary (data, axes, metadata, original "
    "metadata, attributes) and every other argument as they were, so that writing it again, or to another format, gives the same file. "
    "Reading or writing does not change process-wide settings: working directory, environment, dask, NumPy and warning configuration.",
    ["histories", "fault_sequences", "inputs"],
    "every writer, every signal and option dictionary, success and failure at any point, and any sequence of writes of the same signal",
    "the tests build a new signal per write and do not compare it afterwards",
    ["rsciio/*/_api.py", "rsciio/_hierarchical.py", "rsciio/msa/_api.py", "rsciio/blockfile/_api.py", "rsciio/image/_api.py", "rsciio/tvips/_api.py"],
    [("writers copy before changing", "each file_writer"), ("settings changed only inside context managers", "rsciio/tvips/_api.py, rsciio/utils")],
    ["deep comparison of the arguments and process settings before and after the call"],
)

prop(
    "C09",
    "Loading never modifies the source files",
    "Loading a file, lazily or eagerly, with any options, failing or interrupted at any point, computing the result and "
    "modifying the returned arrays in place never changes the bytes of the source file or of any file next to it, and never creates or removes "
    "files unless the caller asked for it. Data files that are write-protected, or a directory that is, can be loaded all the same.",
    ["histories", "fault_sequences", "configurations"],
    "every reader and option set, any in-place modification of the result, any failing operation or exception during the call",
    "the tests look at what was returned, not at the source afterwards; mapped arrays write through only when they are modified",
    ["rsciio/*/_api.py", "rsciio/utils/_distributed.py", "rsciio/_hierarchical.py"],
    [("files are opened read-only; memory maps are read-only or copy-on-write", "each file_reader, rsciio/utils/_distributed.py")],
    ["content hash and listing of the directory before and after; flags of every open and mapping"],
)

prop(
    "C10",
    "Saving lazy data onto the file it comes from never loses the data",
    "Saving, in the HyperSpy formats (hspy, zspy), a lazy signal that was loaded from a file onto that same file, or onto a file from which other live lazy signals were loaded, "
    "either stores the correct data or raises and leaves the file as it was. No spelling of the path, no derived "
    "computation and no other open signal of the file turns it into lost or silently wrong data.",
    ["histories", "schedules", "configurations"],
    "every history of loading lazily, deriving, and saving over the source by any path spelling (relative, with dots, symbolic link, Path), "
    "load mode and schedule",
    "the tests cover the absolute path once; which handle is open and which path string was recorded depends on the history",
    ["rsciio/hspy/_api.py", "rsciio/zspy/_api.py", "rsciio/utils/file.py", "rsciio/_hierarchical.py"],
    [("refusal when the handle behind the data is read-only", "rsciio/hspy/_api.py file_writer"), ("tracked handles of lazy data", "rsciio/hspy/_api.py")],
    ["hspy/zspy file_writer after file_reader(lazy=True)", "file content afterwards"],
    state=[("open lazy handles", "which files are held open by lazy arrays", "rsciio/hspy/_api.py")],
)

prop(
    "C11",
    "HyperSpy files behave as a dictionary of signals over any history",
    "Over any history of writes, overwrites, appends of further signals, attribute-only writes (write_dataset=False) and reads, with handles kept open or not, a hspy or zspy "
    "file contains exactly the signals, data, axes and metadata that the sequence of successful operations put there: overwriting replaces everything, appending keeps the "
    "others, attribute-only writing keeps the data, and nothing of a replaced signal remains.",
    ["histories", "inputs", "fault_sequences"],
    "every sequence of operations of one or several clients on a few files, failing operations included, against a dictionary model",
    "the tests run two or three steps; leftovers (stale axes, data sets of another shape, ragged shapes, learning results) depend on what was there before",
    ["rsciio/hspy/_api.py", "rsciio/zspy/_api.py", "rsciio/_hierarchical.py"],
    [("overwrite_dataset deletes or reuses an existing data set", "rsciio/_hierarchical.py"), ("require_group / mode handling", "rsciio/hspy/_api.py, rsciio/zspy/_api.py")],
    ["hspy/zspy file_writer and file_reader"],
)

prop(
    "C12",
    "Distributed memory mapping returns the bytes of the file for every layout",
    "The public distributed memory mapping, for every dtype, offset, shape, memory order, structured key, chunk specification and "
    "list of scan positions, returns a dask array whose every element, computed in any part and by any schedule, is the element that a direct reading of the file "
    "gives, with positions that were never recorded filled with zeros. It keeps no file open between computations, so that the file can be replaced or "
    "removed in between, and tasks can run in any process.",
    ["inputs", "schedules", "configurations"],
    "every file layout, chunk specification and position list, every subset of blocks and every schedule",
    "the tests use a few shapes and chunkings, whole computes, one process",
    ["rsciio/utils/_distributed.py", "rsciio/utils/file.py", "rsciio/utils/distributed.py"],
    [("slices per chunk and slice_memmap", "rsciio/utils/_distributed.py")],
    ["rsciio.utils.file.memmap_distributed and compute"],
)

prop(
    "C13",
    "A multi-part TVIPS series is written, replaced and read as one data set",
    "For every split size, chunking and schedule a TVIPS series that was written reads back, from its first part, as the one data set written, and no part is larger than asked. "
    "Writing again to the same name replaces the whole earlier series, whatever its number of parts, "
    "so that no part of an older series is ever read together with a newer one.",
    ["histories", "configurations", "schedules"],
    "every sequence of writes with different split sizes and data to the same names, interleaved with reads, missing and foreign parts",
    "the tests write into empty directories once",
    ["rsciio/tvips/_api.py"],
    [("part numbering and discovery of following parts", "rsciio/tvips/_api.py file_writer / file_reader")],
    ["tvips.file_writer, tvips.file_reader, directory listing"],
)

prop(
    "C14",
    "What is read does not depend on clock, time zone, locale, hash seed or directory",
    "Reading a file gives the same data, axes and metadata, dates included, whatever the time zone, locale, wall clock, hash seed, working directory and "
    "spelling of the path in the process that reads. "
    "A file written under one such environment reads back the same under any other, apart from time stamps of the moment of writing.",
    ["configurations", "fault_sequences"],
    "every reader and writer under every simulated time zone, clock value or jump, locale encoding, hash seed and working directory",
    "the tests run in one environment",
    ["rsciio/utils/_date_time.py", "rsciio/tvips/_api.py", "rsciio/semper/_api.py", "rsciio/*/_api.py"],
    [("time stamps converted with an explicit zone, text opened with an explicit encoding", "each module")],
    ["file_reader results across simulated environments"],
)

prop(
    "C15",
    "Concurrent readers and writers on different files do not interfere",
    "Any number of threads, each reading or writing its own files with any formats, obtain exactly what each would "
    "obtain alone, whatever way their steps interleave; threads reading the same file do too. No interleaving deadlocks.",
    ["schedules", "histories"],
    "every interleaving, at the granularity of source lines, of two to four clients running arbitrary read and write programs",
    "the tests are single-threaded",
    ["rsciio/*/_api.py", "rsciio/_hierarchical.py", "rsciio/hspy/_api.py", "rsciio/utils"],
    [("no shared mutable module state; lock around the handle registry", "rsciio/hspy/_api.py and every module")],
    ["file_reader / file_writer called from several threads"],
)

prop(
    "C16",
    "Lazy loading and saving fit in memory far smaller than the data",
    "Opening a file lazily, computing one block of it, reducing it block by block, and saving a chunked lazy signal in a format that "
    "supports lazy saving all succeed on a machine that cannot allocate the whole array, for formats "
    "that declare lazy support over uncompressed or chunked storage. When an allocation does fail, the call raises MemoryError and a "
    "later call with enough memory succeeds.",
    ["fault_sequences", "inputs"],
    "every lazily readable or writable format, every shape and chunking whose chunks are small against the array, allocation failing above the budget",
    "the tests use arrays that always fit",
    ["rsciio/utils/_distributed.py", "rsciio/_hierarchical.py", "rsciio/hspy/_api.py", "rsciio/zspy/_api.py", "rsciio/blockfile/_api.py", "rsciio/tvips/_api.py",
     "rsciio/nexus/_api.py", "rsciio/emd/_emd_ncem.py", "rsciio/mrc/_api.py", "rsciio/quantumdetector/_api.py"],
    [("memory maps, h5py/zarr data sets wrapped without reading", "readers"), ("dask.array.store / block-wise writing", "writers")],
    ["allocations of the process during the call"],
)

prop(
    "C17",
    "A killed or failed rewrite never yields a file that loads as a mixture",
    "If the process is killed, or the storage stops accepting writes, at any point of writing a single-file format, the file found afterwards loads as the complete new "
    "signal, loads as the complete old one, warns that data are missing, or is rejected; it never loads without a warning as something else. "
    "Files other than the target are never touched.",
    ["crash_points", "fault_sequences", "histories"],
    "every single-file writer, every prefix of its storage operations, over no file or over an older file",
    "the tests never stop a writer half-way",
    ["rsciio/hspy/_api.py", "rsciio/nexus/_api.py", "rsciio/emd/_emd_ncem.py", "rsciio/blockfile/_api.py", "rsciio/tvips/_api.py",
     "rsciio/mrcz/_api.py", "rsciio/msa/_api.py", "rsciio/pantarhei/_api.py", "rsciio/semper/_api.py", "rsciio/tiff/_api.py",
     "rsciio/image/_api.py", "rsciio/digitalsurf/_api.py", "rsciio/ripple/_api.py"],
    [("existing file truncated first; header states the size the data must have", "each file_writer")],
    ["disk state after each storage operation", "<format>.file_reader in a fresh process"],
)

prop(
    "C18",
    "A call that is refused leaves an existing file untouched",
    "When a writer refuses its arguments (unsupported dtype, dimensionality, option or mismatching companion data), a file that already exists at the target path is left "
    "byte for byte as it was and no new file is left behind. The path helpers ask before overwriting, treat any doubt as a refusal, and never propose the name of an existing file.",
    ["inputs", "histories", "fault_sequences"],
    "every writer and every rejected signal or option, over no file or an existing file; every sequence of user answers and directory contents",
    "the tests check that an exception is raised, into an empty directory",
    ["rsciio/*/_api.py", "rsciio/utils/path.py"],
    [("validation before the target is opened", "each file_writer"), ("overwrite / incremental_filename / ensure_directory", "rsciio/utils/path.py")],
    ["target file after a refused file_writer call", "rsciio.utils.path functions"],
)

# ---------------------------------------------------------------- pure functions of the input: not applicable
prop(
    "N01",
    "RGB conversion helpers are exact inverses",
    "Converting any RGB or RGBA structured array to a plain array and back gives the original array, for every shape, memory layout and laziness.",
    ["inputs"], "every RGB/RGBA array", "sampled arrays only",
    ["rsciio/utils/rgb.py"], [("rgbx2regular_array / regular_array2rgbx", "rsciio/utils/rgb.py")], ["rsciio.utils.rgb"],
)
prop(
    "N02",
    "Date, serial-date and OLE conversions are inverse and calendar-correct",
    "Converting any date to the metadata form and back is the identity, and serial dates match the calendar for every day representable.",
    ["inputs"], "every date and time", "a few dates are sampled",
    ["rsciio/utils/_date_time.py"], [("conversion functions", "rsciio/utils/_date_time.py")], ["rsciio.utils.date_time"],
)
prop(
    "N03",
    "Vendor decoders agree with the vendor's file specification",
    "For every file that follows the vendor's specification, the reader returns the intensities, calibration and metadata that the specification assigns to its bytes.",
    ["inputs"], "every well-formed file of each vendor format", "a handful of sample files per format",
    ["rsciio/*/_api.py"], [("decoders", "each file_reader")], ["<format>.file_reader"],
)
prop(
    "N04",
    "XML to dictionary conversion loses no content",
    "Converting any XML element to a dictionary keeps every tag, attribute and text, with repeated tags as lists and numbers converted without loss.",
    ["inputs"], "every XML tree", "a few trees are sampled",
    ["rsciio/utils/xml.py"], [("XmlToDict", "rsciio/utils/xml.py")], ["rsciio.utils.xml"],
)
prop(
    "N05",
    "Metadata mapping and unit parsing are total and consistent",
    "For every vendor metadata tree the mapped metadata contain only recognised keys with values in the documented units, and units strings are converted without changing the physical value.",
    ["inputs"], "every metadata tree and units string", "a few samples per format",
    ["rsciio/*/_api.py", "rsciio/utils/_units.py"], [("mapping dictionaries", "each module")], ["metadata of file_reader"],
)
prop(
    "N06",
    "Run-length and event-stream decompression is exact for every stream",
    "For every valid packed stream (Bruker, JEOL, FEI/Velox, SFS containers) the compiled, numba and pure-Python decoders return the same counts.",
    ["inputs"], "every packed stream", "samples only",
    ["rsciio/bruker", "rsciio/jeol/_api.py", "rsciio/utils/_fei_stream_readers.py"], [("decoders", "bruker/unbcf_fast.pyx, jeol, emd")], ["reader results"],
)

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
