import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
def probe(name):
    return [json.load(open(os.path.join(HERE, "probes", name + ".json")))]
MORE_OPEN = [
    {"id": "K2", "property": "C04", "sigs": ["numpy:write-tail:*"], "probes": probe("k2"),
     "what": "npy writer (numpy.save): numpy.ndarray.tofile ignores the failing flush of the last bytes of the data (numpy defect, cf. writing to /dev/full): the write returns, the file is short"},
    {"id": "K3", "property": "C04", "sigs": ["mrcz:write-tail:*"], "probes": probe("k3"),
     "what": "mrcz writer (mrcz library): numpy.ndarray.tofile ignores the failing flush of the last bytes: the write returns, the file is short"},
    {"id": "K4", "property": "C04", "sigs": ["tiff:write-tail:*"], "probes": probe("k4"),
     "what": "tiff writer (tifffile): numpy.ndarray.tofile ignores the failing flush of the last bytes: the write returns, the file is short"},
    {"id": "K5", "property": "C04", "sigs": ["image:write-short:returned-bad:*"], "probes": probe("k5"),
     "what": "image writer (Pillow): short writes to the file descriptor are not continued: the write returns, the image is wrong"},
    {"id": "K6", "property": "C04", "sigs": ["hspy:*err*:crash", "emd:*err*:crash", "nexus:*err*:crash", "hspy:*:retry-raises:RuntimeError", "emd:*:retry-raises:RuntimeError", "nexus:*:retry-raises:RuntimeError"], "probes": probe("k6"),
     "what": "hspy, emd and nexus writers (HDF5 library): when a dataset cannot be flushed because the disk stays full, the error is raised, but closing the dataset ends the process with a memory fault inside HDF5"},
    {"id": "K7", "property": "C04", "sigs": ["zspy:open-err:returned-bad:*"], "probes": probe("k7"),
     "what": "zspy writer, zip store (zipfile): when opening the archive fails once, zipfile opens it write-only and zarr silently loses the attributes it cannot read back"},
]
MORE_OPEN.append({"id": "K8", "property": "C05", "sigs": ["mrcz:read-err:axes/*", "mrcz:read-eintr:axes/*", "mrcz:read-err:original_metadata/*", "mrcz:read-eintr:original_metadata/*"], "probes": probe("k8"),
     "what": "mrcz reader (mrcz library): numpy.fromfile returns fewer items when a read fails in the header, which the library does not check: the scale of the axes is wrong"})
MORE_FIXED = [
    ("C03", "read 1D data and axes of size 1", "a prz file with 1D data or a size 1 axis could not be read back"),
    ("C03", "normalise floats in double precision", "the maximum of single precision data written to sur/pro files overflowed and read back as the minimum"),
    ("C11", "keep the order of lists with more than ten items", "item 10 of a list of lists or dictionaries was read back before item 2"),
    ("C11", "don't reassign the models of the other signals", "appending a signal with a model reassigned the models of the other signals of the file to it"),
    ("C11", "remove what is left of a replaced signal", "metadata of the replaced signal remained after write_dataset=False or appending under the same title"),
    ("C11", "don't pass the file mode on as option of the datasets", "writing with mode='a' raised KeyError after having changed the file"),
    ("C10", "never truncate the file a lazy signal is read from", "saving a derived lazy signal, or under another spelling of the path, destroyed the source"),
    ("C06", "close the file when writing fails and only mark complete files", "hspy files stayed open when writing failed early; a partial file loaded as zeros"),
    ("C17", "overwrite zip archives, close them when writing fails", "a zspy directory of an interrupted write loaded with zeros in place of the missing chunks"),
    ("C13", "remove the files of the previous series when writing", "parts of an earlier, longer TVIPS series were read together with the new one"),
    ("C03", "write signals without navigation axes", "a single TVIPS image raised NameError after truncating the target"),
    ("C03", "refuse data types which would be read back as other values", "floating point data written to TVIPS read back as the bit patterns of the floats"),
    ("C04", "hspy/zspy: raise when the storage fails while writing", "disk full while writing hspy/zspy files lost data, metadata or axes without an error"),
    ("C04", "nexus: raise when the storage fails", "disk full while writing nexus files lost data or axes without an error"),
    ("C04", "emd: raise when the storage fails", "disk full while writing emd files lost data or axes without an error"),
    ("C04", "ripple: raise when the storage fails at the end", "disk full at the end of the raw data was ignored"),
    ("C18", "ripple: refuse signals which can't be written", "lazy signals raised after the rpl file had been replaced; signals with other numbers of signal axes were silently not written"),
    ("C04", "blockfile: raise when the storage fails", "disk full while writing the header or navigator was ignored"),
    ("C04", "tvips: raise when the storage fails", "disk full while writing the header was ignored"),
    ("C03", "read series of a single frame", "a TVIPS series of one frame raised IndexError when read"),
    ("C14", "read the date and time as UTC", "the date and time of TVIPS files depended on the time zone of the reading process"),
    ("C05", "dens: reading an empty file doesn't hang", "an empty DENS file was read in an endless loop"),
    ("C05", "blockfile: raise when the data can't be read completely", "a truncated blockfile was read without an error"),
    ("C05", "blockfile: raise when the notes", "a truncated note was read without an error"),
    ("C05", "edax: raise when the data can't be read", "truncated spd/spc files were read without an error"),
    ("C05", "tia: raise when the data can't be read", "truncated ser/emi data were dropped or read without an error"),
    ("C05", "jeol: warn when the file is truncated", "truncated jeol data were read without warning"),
    ("C05", "jeol: raise when values of the header", "failing reads dropped header values"),
    ("C05", "bruker: raise instead of reading out of bounds", "a truncated bcf file read memory out of bounds"),
    ("C05", "delmic: raise when the file can't be read", "items were dropped when the storage failed"),
    ("C05", "msa: warn when the end of the data", "a truncated msa file was read silently"),
    ("C05", "nexus: raise when the file can't be read", "items were dropped when the storage failed"),
    ("C05", "quadstar: warn when the cycles", "a truncated sbc file was read silently"),
    ("C05", "tiff: raise when the axes or the metadata", "axes and metadata were dropped when the storage failed"),
    ("C05", "tofwerk: raise when the file can't be read", "metadata were dropped when the storage failed"),
    ("C05", "digitalmicrograph, hamamatsu, renishaw: raise", "truncated data were read as fewer values"),
    ("C06", "tvips: release the files after writing", "the memory maps of the files stayed open after writing until garbage collection"),
    ("C06", "hspy: release the file once lazy data are dropped", "a lazily read file stayed open for the life of the process"),
    ("C06", "zspy: don't open copies of the zip archive", "tokenizing by dask opened copies of the zip archive which stayed open"),
    ("C07", "blockfile: return a copy of the mapping", "changing the mapping returned changed the later ones"),
    ("C07", "mrc, mrcz, tia, tiff: return copies", "changing the mapping returned changed the later ones"),
    ("C07", "msa: leave the keywords", "after writing a SEM signal, the metadata of every msa file were mapped to SEM; the original metadata of the signal were changed (C08)"),
    ("C08", "blockfile: leave the axes", "scales and offsets of the axes of the signal were converted in place by the writer"),
    ("C08", "zspy: name the arrays", "reading ragged data changed the state of the random module"),
    ("C03", "semper: read files with an invalid date", "a semper file written from a signal with a date which is not ISO could not be read"),
    ("C03", "emd: write signals whose original", "signals loaded from Velox files could not be saved, after the target had been truncated"),
]
