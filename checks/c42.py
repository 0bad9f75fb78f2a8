"""C42: a result written to a file and read back is the same result."""
import datetime
import os
import shutil
import sys
import tempfile
import types

import numpy as np
import pandas as pd

import bilby
from bilby.core import result as br
from bilby.core import prior as bp
from bilby.core.utils import io as bio
from bilby.gw.result import CompactBinaryCoalescenceResult
from symx.api import harness
from common import patch

BOUNDS = ["posterior, nested samples, samples and walkers of two or three rows; every number symbolic; text, None, nested "
          "dictionaries, arrays, complex numbers and functions in the meta data"]
OUTSIDE = ["decimal formatting of numbers (they are carried through text as tokens)", "HDF5 itself: symbolic runs use a stand-in "
           "for h5py that stores what it is given with h5py's type conversions, replays use h5py",
           "dill", "tuples, lists mixing numbers and text, and empty dictionaries, which HDF5 files do not preserve"]


class H5Dataset:
    def __init__(self, v):
        self.v = v

    def __getitem__(self, k):
        return self.v


class H5Group:
    def __init__(self, tree):
        self.tree = tree

    def _walk(self, path, make=False):
        t = self.tree
        for p in [q for q in path.split("/") if q]:
            if p not in t:
                if not make:
                    raise KeyError(path)
                t[p] = {}
            t = t[p]
        return t

    def __getitem__(self, path):
        t = self._walk(path)
        return H5Group(t) if isinstance(t, dict) else H5Dataset(t)

    def __setitem__(self, path, v):
        head, _, tail = path.rpartition("/")
        t = self._walk(head, True)
        if tail in t:
            raise OSError("Unable to create dataset (name already exists)")
        if isinstance(v, str):
            v = v.encode()
        elif isinstance(v, bool):
            v = np.bool_(v)
        elif isinstance(v, (int, float, complex)):
            v = np.array(v)[()]
        elif isinstance(v, list):
            v = np.array(v)
        elif isinstance(v, np.ndarray):
            if v.dtype.kind == "U":
                raise TypeError("No conversion path for dtype: %s" % v.dtype)
            v = v.copy()
        t[tail] = v

    def items(self):
        for k in sorted(self.tree):
            yield k, self[k]


class H5File(H5Group):
    files = {}

    def __init__(self, name, mode="r"):
        if mode == "w":
            key = str(len(H5File.files))
            with open(name, "w") as f:
                f.write(key)
            H5File.files[key] = {}
        else:
            with open(name) as f:
                key = f.read()
        super().__init__(H5File.files[key])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def scratch(e):
    d = tempfile.mkdtemp()
    e.on_cleanup(lambda: shutil.rmtree(d, ignore_errors=True))
    if e.symbolic:
        old = sys.modules.get("h5py")
        sys.modules["h5py"] = types.SimpleNamespace(File=H5File, Dataset=H5Dataset, Group=H5Group)

        def undo():
            if old is None:
                del sys.modules["h5py"]
            else:
                sys.modules["h5py"] = old
        e.on_cleanup(undo)
    return d


def some_function(x):
    return x


def make(e, cls=br.Result):
    lo = e.real("lo", -9, -1)
    pri = bp.PriorDict(dict(a=bp.Uniform(lo, 5., name="a", latex_label="$a$", unit="s"), b=bp.Gaussian(e.real("mu", -1, 1), 1.), c=3.))
    v = dict(
        label="label", sampler="dynesty", search_parameter_keys=["a", "b"], fixed_parameter_keys=["c"],
        constraint_parameter_keys=[], priors=pri, sampler_kwargs=dict(nlive=e.int("nlive", 1, 9), sample="rwalk", tol=e.real("tol", 0, 1), none=None),
        injection_parameters=dict(a=e.real("inj", -2, 2), b=None, name="x"),
        meta_data=dict(version="1", nested=dict(x=e.real("mx", -2, 2), arr=e.array(e.reals("marr", 3, -2, 2)), z=None, k=dict(t="u", y=e.real("my", 0, 1))),
                       flag=True, number=7),
        posterior=pd.DataFrame({k: e.array(e.reals("p" + k, 3, -2, 2)) for k in ("b", "a", "log_likelihood")}),
        samples=e.array(e.reals("s", 4, -2, 2)).reshape(2, 2),
        nested_samples=pd.DataFrame({k: e.array(e.reals("n" + k, 2, -2, 2)) for k in ("a", "weights")}),
        walkers=e.array(e.reals("w", 8, -2, 2)).reshape(2, 2, 2), nburn=e.int("nburn", 0, 99),
        log_evidence=e.real("lz", -9, 9), log_evidence_err=e.real("ez", 0, 9), log_noise_evidence=e.real("nz", -9, 9),
        log_bayes_factor=e.real("bz", -9, 9), information_gain=e.real("ig", 0, 9),
        log_likelihood_evaluations=e.array(e.reals("lle", 2, -2, 2)), log_prior_evaluations=e.array(e.reals("lpe", 2, -2, 2)),
        num_likelihood_evaluations=e.int("nle", 0, 99), sampling_time=12.5, use_ratio=e.choice("ratio", [False, True, None]),
        version="bilby=x")
    return cls(**v), v


def same(e, label, got, want):
    if isinstance(want, dict):
        e.check(label + " keys", isinstance(got, dict) and set(got) == set(want))
        for k in want:
            same(e, label + "/" + k, got[k], want[k])
    elif isinstance(want, pd.DataFrame):
        e.check(label + " columns", isinstance(got, pd.DataFrame) and set(got.columns) == set(want.columns))
        for k in want.columns:
            e.check_eq(label + "/" + k, got[k].to_numpy(), want[k].to_numpy())
    elif isinstance(want, np.ndarray):
        e.check(label + " shape", np.shape(got) == want.shape)
        e.check_eq(label, np.array(got).reshape(-1), want.reshape(-1))
    elif isinstance(want, list):
        e.check(label, list(got) == want)
    elif want is None or isinstance(want, (str, bool, datetime.timedelta)) or callable(want):
        e.check(label, got == want if want is not None else got is None)
    else:
        e.check_eq(label, got, want)


def compare(e, q, v, r):
    for k, want in v.items():
        if k == "priors":
            e.check("priors class", type(q.priors) is type(r.priors))
            e.check("priors keys", set(q.priors) == set(want))
            for n in want:
                e.check("prior " + n, q.priors[n] == want[n])
        elif k == "sampling_time":
            e.check("sampling time", q.sampling_time == datetime.timedelta(seconds=12.5))
        else:
            same(e, k, getattr(q, k), want)
    e.check("parameter labels", list(q.parameter_labels) == list(r.parameter_labels))
    e.check("parameter labels with units", list(q.parameter_labels_with_unit) == list(r.parameter_labels_with_unit))
    e.check("outdir", q.outdir == r.outdir)


FORMATS = [("json", ("json", False)), ("gzip", ("json", True)), ("hdf5", ("hdf5", False))]


@harness("C42", "round-trip", params=FORMATS)
def round_trip(e, arg):
    ext, gz = arg
    d = scratch(e)
    r, v = make(e)
    r.outdir = d
    r.save_to_file(extension=ext, gzip=gz)
    name = os.path.join(d, "label_result." + ext + (".gz" if gz else ""))
    e.check("file name", sorted(os.listdir(d)) == [os.path.basename(name)])
    how = e.choice("how", ["file", "label"])
    q = br.read_in_result(filename=name) if how == "file" else br.read_in_result(outdir=d, label="label", extension=ext, gzip=gz)
    e.check("class", type(q) is br.Result)
    compare(e, q, v, r)
    # saving has not changed the result, and saving again gives the same
    compare(e, r, v, r)
    q.outdir = d
    q.save_to_file(filename=os.path.join(d, "again." + ext + (".gz" if gz else "")), extension=ext, gzip=gz)
    compare(e, br.read_in_result(filename=os.path.join(d, "again." + ext + (".gz" if gz else ""))), v, r)


@harness("C42", "class", params=FORMATS)
def classes(e, arg):
    ext, gz = arg
    d = scratch(e)
    r, v = make(e, CompactBinaryCoalescenceResult)
    name = os.path.join(d, "x." + ext + (".gz" if gz else ""))
    r.save_to_file(filename=name, extension=ext, gzip=gz)
    q = br.read_in_result(filename=name, result_class=CompactBinaryCoalescenceResult)
    e.check("class", type(q) is CompactBinaryCoalescenceResult)
    compare(e, q, v, r)


@harness("C42", "missing", params=FORMATS)
def missing(e, arg):
    """results without samples, priors or evidence"""
    ext, gz = arg
    d = scratch(e)
    x = e.real("x", -2, 2)
    r = br.Result(label="l", search_parameter_keys=["a"], fixed_parameter_keys=[], priors=bp.PriorDict(dict(a=bp.Uniform(0., 1.))),
                  posterior=pd.DataFrame(dict(a=e.array([x]))))
    name = os.path.join(d, "x." + ext + (".gz" if gz else ""))
    r.save_to_file(filename=name, extension=ext, gzip=gz)
    q = br.read_in_result(filename=name)
    for k in ("nested_samples", "samples", "walkers", "nburn", "num_likelihood_evaluations"):
        e.check("no " + k, e.raises(lambda: getattr(q, k), ValueError) is not None)
    for k in ("injection_parameters", "sampler_kwargs", "sampler", "log_likelihood_evaluations", "sampling_time", "use_ratio"):
        e.check(k, getattr(q, k) is None)
    for k in ("log_evidence", "log_evidence_err", "log_noise_evidence", "log_bayes_factor", "information_gain"):
        e.check(k, bool(np.isnan(getattr(q, k))))
    e.check_eq("posterior", q.posterior["a"].to_numpy(), [x])


@harness("C42", "existing", params=FORMATS)
def existing(e, arg):
    """an existing file is kept under another name unless it is to be overwritten"""
    ext, gz = arg
    d = scratch(e)
    name = os.path.join(d, "x." + ext + (".gz" if gz else ""))
    overwrite = e.choice("overwrite", [False, True])
    x = e.reals("x", 2, -2, 2)
    for i in range(2):
        r = br.Result(label="l", search_parameter_keys=["a"], priors=bp.PriorDict(dict(a=bp.Uniform(0., 1.))),
                      posterior=pd.DataFrame(dict(a=e.array([x[i]]))))
        r.save_to_file(filename=name, extension=ext, gzip=gz, overwrite=overwrite)
    e.check("files", sorted(os.listdir(d)) == sorted([os.path.basename(name)] + ([] if overwrite else [os.path.basename(name) + ".old"])))
    e.check_eq("new", br.read_in_result(filename=name).posterior["a"].to_numpy(), [x[1]])
    if not overwrite:
        shutil.move(name + ".old", os.path.join(d, "old." + ext + (".gz" if gz else "")))
        e.check_eq("old", br.read_in_result(filename=os.path.join(d, "old." + ext + (".gz" if gz else ""))).posterior["a"].to_numpy(), [x[0]])


@harness("C42", "sampler-arguments", params=FORMATS)
def sampler_arguments(e, arg):
    """functions among the sampler's arguments are saved by name; the result in memory keeps them"""
    ext, gz = arg
    d = scratch(e)
    x = e.real("x", -2, 2)
    r = br.Result(label="l", search_parameter_keys=["a"], priors=bp.PriorDict(dict(a=bp.Uniform(0., 1.))),
                  posterior=pd.DataFrame(dict(a=e.array([x]))), sampler_kwargs=dict(f=some_function, tol=x))
    name = os.path.join(d, "x." + ext + (".gz" if gz else ""))
    r.save_to_file(filename=name, extension=ext, gzip=gz)
    e.check("kept in memory", r.sampler_kwargs["f"] is some_function)
    q = br.read_in_result(filename=name)
    e.check("saved as text", isinstance(q.sampler_kwargs["f"], str) and "some_function" in q.sampler_kwargs["f"])
    e.check("only the function itself", "tol" not in q.sampler_kwargs["f"])
    e.check_eq("other argument", q.sampler_kwargs["tol"], x)


@harness("C42", "encode", params=[(k, k) for k in ("array", "complex-array", "complex", "frame", "timedelta", "function", "class",
                                                   "integer", "floating", "prior", "prior-dict", "nested", "cosmology", "quantity")])
def encode(e, kind):
    """JSON encoding of single objects"""
    import json
    from astropy import cosmology, units
    x = e.reals("x", 4, -2, 2)
    obj = {"array": lambda: e.array(x).reshape(2, 2), "complex-array": lambda: e.array([e.mkc(x[0], x[1]), e.mkc(x[2], x[3])]),
           "complex": lambda: e.mkc(x[0], x[1]), "frame": lambda: pd.DataFrame(dict(a=e.array(x[:2]), b=e.array(x[2:]))),
           "timedelta": lambda: datetime.timedelta(seconds=3.25), "function": lambda: bilby.gw.conversion.convert_to_lal_binary_black_hole_parameters,
           "class": lambda: br.Result, "integer": lambda: np.int64(4), "floating": lambda: np.float64(4.5),
           "prior": lambda: bp.Gaussian(x[0], 3.), "prior-dict": lambda: bp.PriorDict(dict(a=bp.Gaussian(x[0], 3.))),
           "nested": lambda: dict(k=[dict(z=e.array(x[:2])), "t", None, x[3]]), "cosmology": lambda: cosmology.FlatLambdaCDM(H0=70., Om0=0.3),
           "quantity": lambda: units.Quantity(4.5, "Mpc")}[kind]()
    s = json.dumps(dict(o=obj), cls=bio.BilbyJsonEncoder)
    got = json.loads(s, object_hook=bio.decode_bilby_json)["o"]
    if kind in ("array", "frame"):
        same(e, kind, got, obj)
    elif kind == "complex-array":
        e.check_eq("value", [v.real for v in got] + [v.imag for v in got], [x[0], x[2], x[1], x[3]])
    elif kind == "complex":
        e.check_eq("value", [got.real, got.imag], x[:2])
    elif kind in ("timedelta", "function", "class", "integer", "floating", "prior"):
        e.check("value", got == obj)
    elif kind == "prior-dict":
        e.check("value", dict(got) == dict(obj) if got is not None else False)
    elif kind == "nested":
        e.check_eq("array", got["k"][0]["z"], x[:2])
        e.check("others", got["k"][1] == "t" and got["k"][2] is None)
        e.check_eq("number", got["k"][3], x[3])
    elif kind == "cosmology":
        e.check("value", type(got) is type(obj) and got.H0 == obj.H0 and got.Om0 == obj.Om0 and got.Tcmb0 == obj.Tcmb0)
    elif kind == "quantity":
        e.check("value", got == obj)


@harness("C42", "list")
def result_list(e):
    """a list of files gives the results in the order of the files; what cannot be read is left out"""
    d = scratch(e)
    x = e.reals("x", 2, -2, 2)
    names = [os.path.join(d, "r%d.json" % i) for i in range(3)]
    bad = e.choice("bad", [0, 1, 2])
    good = [i for i in range(3) if i != bad]
    for j, i in enumerate(good):
        br.Result(label="l%d" % i, search_parameter_keys=["a"], priors=bp.PriorDict(dict(a=bp.Uniform(0., 1.))),
                  posterior=pd.DataFrame(dict(a=e.array([x[j]])))).save_to_file(filename=names[i])
    if e.choice("how", ["absent", "broken"]) == "broken":
        with open(names[bad], "w") as f:
            f.write("{")
    out = br.read_in_result_list(names)
    e.check("labels", [r.label for r in out] == ["l%d" % i for i in good])
    e.check_eq("posteriors", [r.posterior["a"].to_numpy()[0] for r in out], x)
    e.check("refused if asked", e.raises(lambda: br.read_in_result_list(names, invalid="error"), br.ResultListError) is not None)
