"""
C23 - error codes become the exceptions documented for them: every code of the
documented table and every code of every class with unknown endings, looked up
in both orders, and every combination of message fields sent by a server.
"""
import itertools

from mc import wire

PROPERTY = 'C23'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of codes and message fields against the documented table'
RULE = 'an execution is one code looked up, or one message sent by the server'
ASSUMPTIONS = ['the table is the one of PostgreSQL\'s documentation with the names of this library']

# code: name of the class
ERRORS = dict(x.split(':') for x in '''
03000:SQLNotYetCompleteError 08000:ConnectionError 08001:ClientCannotConnectError 08003:ConnectionDoesNotExistError
08004:ConnectionRejectionError 08006:ConnectionFailureError 08007:TransactionResolutionUnknownError 08P01:ProtocolError
09000:TriggeredActionError 0A000:FeatureError 0B000:TransactionInitiationError 0F000:LocatorError
0F001:LocatorSpecificationError 0L000:GrantorError 0LP01:GrantorOperationError 0P000:RoleSpecificationError
20000:CaseNotFoundError 21000:CardinalityError 22000:DataError 22001:StringRightTruncationError
22002:NullValueNoIndicatorParameter 22003:NumericRangeError 22004:NullValueNotAllowedError 22005:AssignmentError
22007:DateTimeFormatError 22008:DateTimeFieldOverflowError 22009:TimeZoneDisplacementValueError
2200B:EscapeCharacterConflictError 2200D:EscapeOctetError 2200F:ZeroLengthString
2200G:SpecificTypeMismatch 2200L:NotXMLError 2200M:XMLDocumentError 2200N:XMLContentError 2200S:XMLCommentError
2200T:XMLProcessingInstructionError 22010:IndicatorParameterValueError 22011:SubstringError 22012:ZeroDivisionError
22015:IntervalFieldOverflowError 22018:CastCharacterValueError 22019:EscapeCharacterError 2201B:RegularExpressionError
2201E:LogArgumentError 2201F:PowerFunctionArgumentError 2201G:WidthBucketFunctionArgumentError 2201W:LimitValueError
2201X:OffsetValueError 22020:LimitValueError 22021:EncodingError 22022:IndicatorOverflowError 22023:ParameterValueError
22024:UnterminatedCStringError 22025:EscapeSequenceError 22026:StringDataLengthError 22027:TrimError
2202E:ArrayElementError 22P01:FloatingPointError 22P02:TextRepresentationError 22P03:BinaryRepresentationError
22P04:BadCopyError 22P05:UntranslatableCharacterError 22P06:NonstandardUseOfEscapeCharacterError 23000:ICVError
23001:RestrictError 23502:NotNullError 23503:ForeignKeyError 23505:UniqueError 23514:CheckError 24000:CursorStateError
25000:ITSError 25001:ActiveTransactionError 25002:BranchAlreadyActiveError 25003:BadAccessModeForBranchError
25004:BadIsolationForBranchError 25005:NoActiveTransactionForBranchError 25006:ReadOnlyTransactionError
25007:SchemaAndDataStatementsError 25008:InconsistentCursorIsolationError 25P01:NoActiveTransactionError
25P02:InFailedTransactionError 26000:StatementNameError 27000:TriggeredDataChangeViolation
28000:AuthenticationSpecificationError 2B000:DPDSEError 2BP01:DPDSEObjectError 2D000:TransactionTerminationError
2F000:SREError 2F002:DataModificationProhibitedError 2F003:StatementProhibitedError 2F004:ReadingDataProhibitedError
2F005:FunctionExecutedNoReturnStatementError 34000:CursorNameError 38000:EREError 38001:ContainingSQLNotPermittedError
38002:ModifyingSQLDataNotPermittedError 38003:ProhibitedSQLStatementError 38004:ReadingSQLDataNotPermittedError
39000:ERIEError 39001:InvalidSQLState 39004:NullValueNotAllowed 39P01:TriggerProtocolError 39P02:SRFProtocolError
3B000:SavepointError 3B001:InvalidSavepointSpecificationError 3D000:CatalogNameError 3F000:SchemaNameError 40000:TRError
40001:SerializationError 40002:IntegrityConstraintViolationError 40003:StatementCompletionUnknownError
40P01:DeadlockError 42000:SEARVError 42501:InsufficientPrivilegeError 42601:SyntaxError 42602:SEARVNameError
42611:ColumnDefinitionError 42622:NameTooLongError 42701:DuplicateColumnError 42702:AmbiguousColumnError
42703:UndefinedColumnError 42704:UndefinedObjectError 42710:DuplicateObjectError 42712:DuplicateAliasError
42723:DuplicateFunctionError 42725:AmbiguousFunctionError 42803:GroupingError 42804:TypeMismatchError
42809:WrongObjectTypeError 42830:ForeignKeyCreationError 42846:CoercionError 42883:UndefinedFunctionError
42939:ReservedNameError 42P01:UndefinedTableError 42P02:UndefinedParameterError 42P03:DuplicateCursorError
42P04:DuplicateDatabaseError 42P05:DuplicatePreparedStatementError 42P06:DuplicateSchemaError 42P07:DuplicateTableError
42P08:AmbiguousParameterError 42P09:AmbiguousAliasError 42P10:ColumnReferenceError 42P11:CursorDefinitionError
42P12:DatabaseDefinitionError 42P13:FunctionDefinitionError 42P14:PreparedStatementDefinitionError
42P15:SchemaDefinitionError 42P16:TableDefinitionError 42P17:ObjectDefinitionError 42P18:IndeterminateTypeError
42P19:RecursionError 42P20:WindowError 44000:WithCheckOptionError 53000:IRError 53100:DiskFullError 53200:MemoryError
53300:TooManyConnectionsError 54000:PLEError 54001:ComplexityOverflowError 54011:ColumnOverflowError
54023:ArgumentOverflowError 55000:ONIPSError 55006:ObjectInUseError 55P02:ImmutableRuntimeParameterError
55P03:UnavailableLockError 57000:OIError 57014:QueryCanceledError 57P01:AdminShutdownError 57P02:CrashShutdownError
57P03:ServerNotReadyError 58000:SIOError 58P01:UndefinedFileError 58P02:DuplicateFileError F0000:CFError
F0001:LockFileExistsError P0000:PLPGSQLError P0001:PLPGSQLRaiseError P0002:PLPGSQLNoDataFoundError
P0003:PLPGSQLTooManyRowsError XX000:InternalError XX001:DataCorruptedError XX002:IndexCorruptedError
--000:DriverError --AUT:AuthenticationMethodError --CIO:ColumnError --OPE:OperationError --PIO:ParameterError
--SEC:InsecurityError --TIO:TypeIOError --TOE:ConnectTimeoutError --cIO:CompositeError
'''.split())
WARNINGS = dict(x.split(':') for x in '''
01000:Warning 01003:NullValueEliminatedInSetFunctionWarning 01004:StringDataRightTruncationWarning
01006:PrivilegeNotRevokedWarning 01007:PrivilegeNotGrantedWarning 01008:ImplicitZeroBitPaddingWarning
0100C:DynamicResultSetsReturnedWarning 01P01:DeprecationWarning 02000:NoDataWarning 02001:NoMoreSetsReturned
01-00:DriverWarning 01-CP:IgnoredClientParameterWarning 01-TP:TypeConversionWarning
'''.split())
# these break the connection, whatever else they are
DISCONNECT = '''08000 08001 08003 08004 08006 08007 08P01 28000 57P01 57P02 57P03 --AUT --SEC --TOE'''.split()
GROUPS = {
    'TypeError': '42846 42804 42P18 42809', 'UndefinedError': '42703 42883 42P01 42P02 42704',
    'DuplicateError': '42701 42P03 42P04 42723 42P05 42P06 42P07 42712 42710', 'AmbiguityError': '42702 42725 42P08 42P09',
    'DefinitionError': '42611 42P11 42P12 42P13 42P14 42P15 42P16 42P17', 'NameError': '3D000 34000 26000 3F000',
    'TransactionError': '0B000 40000 40P01 25000 25P02 3B000 3B001 2D000', 'DriverError': '--AUT --CIO --OPE --PIO --TIO --TOE --SEC --cIO',
    'TypeIOError': '--PIO --CIO --cIO',
}
DIGITS = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def tasks(tier):
    T = [('table', v, {}) for v in ('c', 'py')]
    for i in range(8):
        T.append(('codes', 'c', {'i': i, 'n': 8}))
        for v in ('c', 'py'):
            T.append(('server', v, {'i': i, 'n': 8}))
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


def expected(code, table, default):
    return table.get(code) or table.get(code[:2] + '000') or default


def t_table(R):
    import postgresql.exceptions as X
    import postgresql.api
    both = ((X.ErrorLookup, ERRORS, 'Error'), (X.WarningLookup, WARNINGS, 'Warning'))
    for first in list(ERRORS) + list(WARNINGS) + ['00000', 'ZZZZZ', '', '42', '4', '22', 'XX']:
        if not R.case(['after', first]):
            continue
        with R.guarded('table', 20):
            # whatever was looked up before
            X.ErrorLookup(first)
            X.WarningLookup(first)
            for f, table, default in both:
                for code, name in table.items():
                    c = f(code)
                    R.check(c is getattr(X, name), 'table:%s' % code, lambda: '%s is %r, not %s' % (code, c, name))
                    c = f(first)
                    n = expected(first, table, default)
                    R.check(c is getattr(X, n), 'table:%s' % first, lambda: '%s is %r, not %s' % (first, c, n))
                    R.trans(2)
            R.state(first)
            R.outcome((X.ErrorLookup(first).__name__, X.WarningLookup(first).__name__))
    for f, table, default in both:
        base = getattr(X, default)
        for code, name in table.items():
            if not R.case(['class', code]):
                continue
            with R.guarded('table', 20):
                c = getattr(X, name)
                R.check(issubclass(c, base) and issubclass(c, X.Message), 'table:base', name)
                if table is ERRORS:
                    R.check(issubclass(c, X.Exception) and issubclass(c, Exception), 'table:exception', name)
                    R.check(issubclass(c, X.Disconnection) == (code in DISCONNECT), 'table:disconnection', name)
                cls = table.get(code[:2] + '000')
                if cls and code != '22020':
                    R.check(issubclass(c, getattr(X, cls)), 'table:class', '%s is no %s' % (name, cls))
                if code not in ('22020',):
                    R.check(c.code == code, 'table:code', '%s has %r' % (name, c.code))
                for g, codes in GROUPS.items():
                    if code in codes.split():
                        R.check(issubclass(c, getattr(X, g)), 'table:group', '%s is no %s' % (name, g))
                # an instance is what it says
                for details in ({}, {'severity': 'ERROR'}, {'severity': 'FATAL', 'detail': 'd'}, {'severity': 'PANIC'}):
                    e = c('the message', code=code, details=details, source='SERVER')
                    R.check((e.message, e.code, e.details, e.source) == ('the message', code, details, 'SERVER'), 'table:instance', name)
                    other = c('the message', code='99999')
                    R.check(other.code == '99999' and e.code == code and c('x').code == c.code, 'table:own-code', name)
                    if table is ERRORS:
                        want = None if not details else details['severity'] != 'ERROR'
                        R.check(e.fatal is want, 'table:fatal', '%r %r' % (name, e.fatal))
                        R.check('the message' in str(e) and code in str(e), 'table:str', str(e))
                    R.check('the message' in repr(e), 'table:repr', repr(e))
                R.state(code)
                R.outcome(c.__mro__.__len__())


def t_codes(R, i, n):
    import postgresql.exceptions as X
    tails = ['000', '001', '002', '00A', '00Z', '012', '100', '999', 'P00', 'P01', 'P02', 'P99', '00', '', 'XXXX', '0001']
    if R.tier != 'quick':
        tails += [''.join(x) for x in itertools.product('019PZ', repeat=3)]
    for a, b in itertools.product(DIGITS + '-', repeat=2):
        j = (DIGITS + '-').index(a) * 37 + (DIGITS + '-').index(b)
        if j % n != i or not R.case([a + b]):
            continue
        with R.guarded('codes', 20):
            for order in (tails, tails[::-1]):
                for t in order:
                    code = a + b + t
                    c = X.ErrorLookup(code)
                    w = X.WarningLookup(code)
                    e = expected(code, ERRORS, 'Error')
                    f = expected(code, WARNINGS, 'Warning')
                    R.check(c is getattr(X, e), 'codes:error', lambda: '%s is %r, not %s' % (code, c, e))
                    R.check(w is getattr(X, f), 'codes:warning', lambda: '%s is %r, not %s' % (code, w, f))
                    R.check(issubclass(c, X.Error) and issubclass(w, X.Warning), 'codes:base', code)
                    R.trans(2)
                    R.outcome((c.__name__, w.__name__))
            R.state((a, b))


FIELDS = {'D': 'detail', 'H': 'hint', 'W': 'context', 'P': 'position', 'p': 'internal_position', 'q': 'internal_query',
          'F': 'file', 'L': 'line', 'R': 'function'}
# fields the library does not know are left out
UNKNOWN = ['s', 't', 'c', 'n', 'd', 'z']


def body(sev, code, message, extra, nonlocal_sev=None, order=1):
    f = [(b'S', sev)]
    if nonlocal_sev:
        f.append((b'V', nonlocal_sev))
    f += [(b'C', code.encode()), (b'M', message)]
    f += extra
    return b''.join(k + v + b'\0' for k, v in f[::order]) + b'\0'


def t_server(R, i, n):
    import postgresql.exceptions as X
    j = 0
    names = list(FIELDS)
    with wire.quiet():
        got = []
        for mask in range(2 ** len(names)):
            w = wire.World()
            db = wire.connect(w)
            db.msghook = lambda m: got.append(m) or True
            db.execute('')
            for code in ('22012', '42P01', 'XX999', 'QQ000', '54001') if mask % 8 == 0 or R.tier != 'quick' else ('23505',):
                for sev, loc, fatal in ((b'ERROR', None, False), (b'FEHLER', b'ERROR', False), (b'ERROR', b'ERROR', False)):
                    for text, value in ((b'plain', 'plain'), ('é€'.encode(), 'é€'), (b'\xff\xfe bad', '\\xff\\xfe bad')):
                        for order in (1, -1):
                            for mode in ('execute', 'query', 'notice', 'warning'):
                                j += 1
                                if j % n != i or not R.case([mask, code, sev, loc, text, order, mode]):
                                    continue
                                extra = [(k.encode(), FIELDS[k].encode() + text) for b, k in enumerate(names) if mask >> b & 1]
                                extra += [(u.encode(), b'unknown') for u in UNKNOWN if mask & 1]
                                want = {FIELDS[k]: FIELDS[k] + value if isinstance(value, str) else None for b, k in enumerate(names) if mask >> b & 1}
                                if value.startswith('\\'):
                                    want = {k: k + value for k in want}
                                with R.guarded('server', 20):
                                    one(R, X, db, w, got, mode, code, sev, loc, text, value, extra, want, order)
            db.close()


def one(R, X, db, w, got, mode, code, sev, loc, text, value, extra, want, order):
    where = lambda: repr((mode, code, sev, loc, text, want))
    if mode in ('execute', 'query'):
        w.server.planted = body(sev, code, text, extra, loc, order)
        try:
            if mode == 'execute':
                db.execute('RAISE ERROR')
            else:
                db.query('RAISE ERROR')
            R.violate('server:no-error', where())
            return
        except X.Error as e:
            m = e
        name = expected(code, ERRORS, 'Error')
        severity = (loc or sev).decode()
        R.check(m.fatal is False, 'server:fatal', where)
    else:
        sv = b'NOTICE' if mode == 'notice' else b'WARNING'
        if mode == 'warning':
            code = {'22012': '01000', '42P01': '01004', 'XX999': '01999', 'QQ000': '02001', '54001': '02777'}.get(code, '01P01')
        severity = sv.decode()
        w.server.planted = body(b'HINWEIS' if loc else sv, code, text, extra, sv if loc else None, order)
        del got[:]
        db.execute('RAISE NOTICE')
        if not R.check(len(got) == 1, 'server:notices', lambda: '%r %s' % (got, where())):
            return
        m = got[0]
        name = expected(code, WARNINGS, 'Warning') if mode == 'warning' else 'Message'
    R.check(type(m) is getattr(X, name), 'server:class', lambda: '%r %s' % (type(m), where()))
    R.check(m.code == code, 'server:code', lambda: '%r %s' % (m.code, where()))
    R.check(m.message == value, 'server:message', lambda: '%r %s' % (m.message, where()))
    R.check(m.details.get('severity') == severity, 'server:severity', lambda: '%r %s' % (m.details, where()))
    details = {k: v for k, v in m.details.items() if k in FIELDS.values()}
    R.check(details == want, 'server:details', lambda: '%r, not %r' % (details, want))
    R.check(m.source == 'SERVER', 'server:source', where)
    R.check(value in str(m) if isinstance(m, X.Error) else True, 'server:str', where)
    R.state((mode, type(m).__name__, tuple(sorted(details))))
    R.outcome((type(m).__name__, len(details)))
    R.trans()
