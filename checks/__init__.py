class Test(object):
	"""One generated-input search: fn(d, r) builds a case from `d` and judges it."""

	def __init__(self, name, fn, quick, thorough=None, shards=4, qsec=30, tsec=600):
		self.name = name
		self.fn = fn
		self.quick = quick
		self.thorough = thorough if thorough is not None else quick * 20
		self.shards = shards
		self.qsec = qsec
		self.tsec = tsec
