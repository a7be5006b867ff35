package ocfl

// C15: the reported findings of a validation context

logic ctxval(any, any) any
trusted context.Context.Value(ctx, key) (val)
  noalloc
  ensures val: val == ctxval(ctx, key)

func GetValidationStatus(ctx) (status, err)
  prop C15
  ensures found: typeis(ctxval(ctx, "validationStatus"), "*ValidationStatus") ==> err == nil && status == as(ctxval(ctx, "validationStatus"), "*ValidationStatus")
  ensures none: !typeis(ctxval(ctx, "validationStatus"), "*ValidationStatus") ==> err != nil

def known(ctx) = typeis(ctxval(ctx, "validationStatus"), "*ValidationStatus") && as(ctxval(ctx, "validationStatus"), "*ValidationStatus") != nil
def stat(ctx) = as(ctxval(ctx, "validationStatus"), "*ValidationStatus")

func addValidationErrors(ctx, vErrs) (err)
  prop C15
  requires ctx: allocated(stat(ctx))
  modifies stat(ctx).Errors
  modifies elems(stat(ctx).Errors)
  ensures err: err == nil <==> known(ctx)
  ensures len: err == nil ==> len(stat(ctx).Errors) == old(len(stat(ctx).Errors)) + len(vErrs)
  ensures kept: err == nil ==> forall k int :: {stat(ctx).Errors[k]} 0 <= k && k < old(len(stat(ctx).Errors)) ==> stat(ctx).Errors[k] == old(stat(ctx).Errors[k])
  ensures added: err == nil ==> forall k int :: {vErrs[k]} 0 <= k && k < len(vErrs) ==> stat(ctx).Errors[old(len(stat(ctx).Errors)) + k] == old(vErrs[k])

func addValidationWarnings(ctx, vWarns) (err)
  prop C15
  requires ctx: allocated(stat(ctx))
  modifies stat(ctx).Errors
  modifies elems(stat(ctx).Errors)
  ensures err: err == nil <==> known(ctx)
  ensures len: err == nil ==> len(stat(ctx).Errors) == old(len(stat(ctx).Errors)) + len(vWarns)
  ensures kept: err == nil ==> forall k int :: {stat(ctx).Errors[k]} 0 <= k && k < old(len(stat(ctx).Errors)) ==> stat(ctx).Errors[k] == old(stat(ctx).Errors[k])
  ensures added: err == nil ==> forall k int :: {vWarns[k]} 0 <= k && k < len(vWarns) ==> stat(ctx).Errors[old(len(stat(ctx).Errors)) + k] == old(vWarns[k])

func (ve *ValidationError).AppendDescription(format, a) (result)
  prop C15
  nopanic
  requires ve: ve != nil
  ensures fresh: result != nil && fresh(result)
  ensures code: result.Code == ve.Code && result.Version == ve.Version && result.Description == ve.Description && result.Ref == ve.Ref && result.Context == ve.Context
  ensures text: result.Description2 == strings.TrimSpace(ve.Description2 + " " + fmtlist(format, a))

func (ve *ValidationError).AppendContext(format, a) (result)
  prop C15
  nopanic
  requires ve: ve != nil
  ensures fresh: result != nil && fresh(result)
  ensures code: result.Code == ve.Code && result.Version == ve.Version && result.Description == ve.Description && result.Ref == ve.Ref && result.Description2 == ve.Description2
  ensures text: result.Context == strings.TrimSpace(ve.Context + " " + fmtlist(format, a))

def incat(version, c) = ite(version == "1.1", c in OCFLValidationError1_1, c in OCFLValidationError1_0)
def inmap(version, c) = ite(version == "1.1", c in OCFLValidationErrorMapping1_1, c in OCFLValidationErrorMapping1_0)
def mapped(version, c) = ite(version == "1.1", OCFLValidationErrorMapping1_1[c], OCFLValidationErrorMapping1_0[c])

func GetValidationError(version, errno) (result)
  prop C15
  nopanic
  ensures some: result != nil
  ensures catalogue: incat(version, errno) ==> result.Code == errno && result.Version == ite(version == "1.1", "1.1", "1.0")
  ensures entry11: version == "1.1" && errno in OCFLValidationError1_1 ==> result == OCFLValidationError1_1[errno]
  ensures entry10: version != "1.1" && errno in OCFLValidationError1_0 ==> result == OCFLValidationError1_0[errno]
  ensures mapped: !incat(version, errno) && inmap(version, errno) ==> incat(version, mapped(version, errno)) && result.Code == mapped(version, errno)
  ensures error: !incat(version, errno) && !inmap(version, errno) && !(len(errno) > 0 && errno[0] == 87) ==> result.Code == "E000"
  ensures warning: !incat(version, errno) && !inmap(version, errno) && len(errno) > 0 && errno[0] == 87 ==> result.Code == "W000"

// the code under which a finding of an object of the given version is reported
// the inventory of an object is one of this package, if there is one
def objinv(object) = object.i == nil || isinv(object.i)
def codefor(version, c) = ite(incat(version, c), c, ite(inmap(version, c), mapped(version, c), ite(len(c) > 0 && c[0] == 87, "W000", "E000")))
def grown(ctx) = len(stat(ctx).Errors) == old(len(stat(ctx).Errors)) + 1 && (forall k int :: {stat(ctx).Errors[k]} 0 <= k && k < old(len(stat(ctx).Errors)) ==> stat(ctx).Errors[k] == old(stat(ctx).Errors[k]))
def last(ctx) = stat(ctx).Errors[len(stat(ctx).Errors) - 1]

logic objver(any) string
logic objfs(any) any
trusted ocfl.Object.GetVersion(x) (version)
  noalloc
  ensures val: version == objver(x)
trusted ocfl.Object.GetFS(x) (fsys)
  noalloc
  ensures val: fsys == objfs(x)
func (object *ObjectBase).addValidationError(errno, format, a) (err)
  prop C15
  sets codes = upd(old(codes), errno, true)
  requires ctx: objinv(object) && allocated(stat(object.ctx))
  modifies stat(object.ctx).Errors
  modifies elems(stat(object.ctx).Errors)
  ensures err: err == nil <==> known(object.ctx)
  ensures kept: err == nil ==> grown(object.ctx)
  ensures code: err == nil ==> last(object.ctx) != nil && last(object.ctx).Code == codefor(object.version, errno)

func (object *ObjectBase).addValidationWarning(errno, format, a) (err)
  prop C15
  sets warns = upd(old(warns), errno, true)
  requires ctx: objinv(object) && allocated(stat(object.ctx))
  modifies stat(object.ctx).Errors
  modifies elems(stat(object.ctx).Errors)
  ensures err: err == nil <==> known(object.ctx)
  ensures kept: err == nil ==> grown(object.ctx)
  ensures code: err == nil ==> last(object.ctx) != nil && last(object.ctx).Code == codefor(object.version, errno)

func (osr *StorageRootBase).addValidationError(errno, format, a) (err)
  prop C15
  sets codes = upd(old(codes), errno, true)
  requires ctx: allocated(stat(osr.ctx))
  modifies stat(osr.ctx).Errors
  modifies elems(stat(osr.ctx).Errors)
  ensures err: err == nil <==> known(osr.ctx)
  ensures kept: err == nil ==> grown(osr.ctx)
  ensures code: err == nil ==> last(osr.ctx) != nil && last(osr.ctx).Code == codefor(osr.version, errno)

func (osr *StorageRootBase).addValidationWarning(errno, format, a) (err)
  prop C15
  sets warns = upd(old(warns), errno, true)
  requires ctx: allocated(stat(osr.ctx))
  modifies stat(osr.ctx).Errors
  modifies elems(stat(osr.ctx).Errors)
  ensures err: err == nil <==> known(osr.ctx)
  ensures kept: err == nil ==> grown(osr.ctx)
  ensures code: err == nil ==> last(osr.ctx) != nil && last(osr.ctx).Code == codefor(osr.version, errno)

func (i *InventoryBase).addValidationError(errno, format, a) ()
  prop C15
  sets codes = upd(old(codes), errno, true)
  requires ctx: allocated(stat(i.ctx))
  modifies stat(i.ctx).Errors
  modifies elems(stat(i.ctx).Errors)
  ensures kept: known(i.ctx) ==> grown(i.ctx)
  ensures code: known(i.ctx) ==> last(i.ctx) != nil && last(i.ctx).Code == codefor(objver(i.object), errno)

func (i *InventoryBase).addValidationWarning(errno, format, a) ()
  prop C15
  sets warns = upd(old(warns), errno, true)
  requires ctx: allocated(stat(i.ctx))
  modifies stat(i.ctx).Errors
  modifies elems(stat(i.ctx).Errors)
  ensures kept: known(i.ctx) ==> grown(i.ctx)
  ensures code: known(i.ctx) ==> last(i.ctx) != nil && last(i.ctx).Code == codefor(objver(i.object), errno)
