"""More behaviour-preserving edits written by hand."""
from equiv_cases import case

UF = "utility_functions.py"
case("uf-host-helper", (UF, '''def GetHostInfo() -> namedtuple:''', '''def _cpu_family(machine: str):
    upper = machine.upper()
    if "x86" in machine.lower() or any(vendor in upper for vendor in ("AMD", "INTEL")):
        return "x86"
    for token, family in (("ARM", "ARM"), ("AARCH", "ARM"), ("LOONGARCH", "LOONGARCH")):
        if token in upper:
            return family
    return None


def GetHostInfo() -> namedtuple:'''), (UF, '''    arch = None
    bit = None

    # For''', '''    # For'''), (UF, '''    if ("x86" in processor_info.lower()) or ("AMD" in processor_info.upper()) or ("INTEL" in processor_info.upper()):
        arch = "x86"
    elif ("ARM" in processor_info.upper()) or ("AARCH" in processor_info.upper()):
        arch = "ARM"
    elif "LOONGARCH" in processor_info.upper():
        arch = "LOONGARCH"

    if "32" in processor_info:
        bit = "32"
    elif "64" in processor_info:
        bit = "64"

    if (arch is None) or (bit is None):
''', '''    arch = _cpu_family(processor_info)
    bit = next((b for b in ("32", "64") if b in processor_info), None)

    if None in (arch, bit):
'''))
case("uf-runcmd-quote", (UF, '''def RunCmd(
    cmd: str,''', '''def _quote_if_needed(path: str) -> str:
    return f'"{path}"' if " " in path else path


def RunCmd(
    cmd: str,'''), (UF, '''    if " " in cmd:
        cmd = '"' + cmd + '"'
    if parameters is not None:
        parameters = parameters.strip()
        cmd += " " + parameters
''', '''    cmd = _quote_if_needed(cmd)
    if parameters is not None:
        cmd = f"{cmd} {parameters.strip()}"
'''), (UF, '''    # Adjust for spaces in the path (when calling the command).
    if " " in SignToolPath:
        SignToolPath = '"' + SignToolPath + '"'

    OutputDir = os.path.dirname(ToSignFilePath)''', '''    SignToolPath = _quote_if_needed(SignToolPath)

    OutputDir = os.path.dirname(ToSignFilePath)'''))
case("uf-runcmd-guard", (UF, '''    if capture:
        thread = PropagatingThread(target=reader, args=(outfile, outstream, c.stdout, logging_level, encodingErrors))
        thread.start()
        c.wait()
        thread.join()
    else:
        # drain the output: a command blocked on a full pipe would never exit
        c.communicate()
''', '''    if not capture:
        # drain the output: a command blocked on a full pipe would never exit
        c.communicate()
    else:
        reader_args = (outfile, outstream, c.stdout, logging_level, encodingErrors)
        output_thread = PropagatingThread(target=reader, args=reader_args)
        output_thread.start()
        c.wait()
        output_thread.join()
'''), (UF, '''    if raise_exception_on_nonzero and c.returncode != 0:
        raise Exception("{0} failed with Return Code: {1}".format(cmd, returncode_str))
    return c.returncode
''', '''    status = c.returncode
    if status != 0 and raise_exception_on_nonzero:
        raise Exception(f"{cmd} failed with Return Code: {returncode_str}")
    return status
'''))
case("uf-runpython-locate", (UF, '''def RunPythonScript(
    pythonfile: str,''', '''def _locate_script(name: str) -> str:
    if os.path.isabs(name):
        logging.debug("Python Script was given as absolute path: %s" % name)
        return name
    local = os.path.join(os.getcwd(), name)
    if os.path.isfile(local):
        logging.debug("Python Script was given as relative path: %s" % local)
        return local
    for entry in os.getenv("PATH").split(os.pathsep):
        candidate = os.path.join(os.path.normpath(entry), name)
        if os.path.isfile(candidate):
            logging.debug("Python Script was found on the path: %s" % candidate)
            return candidate
    return name


def RunPythonScript(
    pythonfile: str,'''), (UF, '''    if os.path.isabs(pythonfile):
        logging.debug("Python Script was given as absolute path: %s" % pythonfile)
    elif os.path.isfile(os.path.join(os.getcwd(), pythonfile)):
        pythonfile = os.path.join(os.getcwd(), pythonfile)
        logging.debug("Python Script was given as relative path: %s" % pythonfile)
    else:
        # loop thru path environment variable
        for a in os.getenv("PATH").split(os.pathsep):
            a = os.path.normpath(a)
            if os.path.isfile(os.path.join(a, pythonfile)):
                pythonfile = os.path.join(a, pythonfile)
                logging.debug("Python Script was found on the path: %s" % pythonfile)
                break
    # quoted only once located: a quoted name matches no file
    params = '"' + pythonfile + '" ' + params
''', '''    pythonfile = _locate_script(pythonfile)
    # quoted only once located: a quoted name matches no file
    params = f'"{pythonfile}" {params}'
'''))
case("uf-sign-params-list", (UF, '''    params = (
        'sign /fd sha256 /p7ce DetachedSignedData /p7co "' + Oid + '" /p7 "' + OutputDir + '" /f "' + PfxFilePath + '"'
    )
    if Eku is not None:
        params += ' /u "' + Eku + '"'
    if PfxPass is not None:
        # add password if set
        params = params + ' /p "' + PfxPass + '"'
    params = params + ' /debug /v "' + ToSignFilePath + '" '
''', '''    options = ["sign /fd sha256 /p7ce DetachedSignedData", f'/p7co "{Oid}"', f'/p7 "{OutputDir}"', f'/f "{PfxFilePath}"']
    if Eku is not None:
        options.append(f'/u "{Eku}"')
    if PfxPass is not None:
        options.append(f'/p "{PfxPass}"')
    options.append(f'/debug /v "{ToSignFilePath}" ')
    params = " ".join(options)
'''))
case("uf-reader-else", (UF, '''            if f is not None:
                # write to file if caller provided file
                f.write(s)
            if outstream is not None:
                # write to stream object if caller provided object
                outstream.write(s)
''', '''            for sink in (f, outstream):
                if sink is not None:
                    sink.write(s)
'''))
case("uf-reader-while-s", (UF, '''        while True:
            s = stream.readline().decode(sys.stdout.encoding or "utf-8", errors=encodingErrors)
            if not s:
                break
''', '''        codec = sys.stdout.encoding or "utf-8"
        s = None
        while s != "":
            s = stream.readline().decode(codec, errors=encodingErrors)
            if s == "":
                continue
'''))
case("uf-thread-join", (UF, '''        super(PropagatingThread, self).join(timeout)
        if self.is_alive():
            return None
        if self.exc:
            raise self.exc
        return self.ret
''', '''        super().join(timeout)
        if not self.is_alive():
            if self.exc is not None:
                raise self.exc
            return self.ret
        return None
'''))
case("uf-removetree", (UF, '''    for _ in range(3):  # retry up to 3 times
        try:
            shutil.rmtree(dir_path, ignore_errors=ignore_errors, onerror=_remove_readonly)
        except OSError as err:
            logging.warning(f"Failed to fully remove {dir_path}: {err}")
        else:
            break
    else:
        raise RuntimeError(f"Failed to remove {dir_path}")
''', '''    attempts = 3
    while attempts > 0:
        attempts -= 1
        try:
            shutil.rmtree(dir_path, ignore_errors=ignore_errors, onerror=_remove_readonly)
            return
        except OSError as err:
            logging.warning(f"Failed to fully remove {dir_path}: {err}")
    raise RuntimeError(f"Failed to remove {dir_path}")
'''))
case("uf-hexdump-ascii", (UF, '''def hexdump(byte_list''', '''def _printable(byte: int) -> str:
    return chr(byte) if 0x20 <= byte <= 0x7E else "."


def hexdump(byte_list'''), (UF, '''        if byte < 0x20 or byte > 0x7E:
            ascii_string += "."
        else:
            ascii_string += f"{chr(byte)}"

        # End of Line''', '''        ascii_string += _printable(byte)

        # End of Line'''))
case("uf-locate-class", (UF, '''    for _class in classList:
        # Classes that''', '''    for _class in classList:
        if _class is DesiredClass or not issubclass(_class, DesiredClass):
            continue
        # Classes that'''), (UF, '''        if _class is not DesiredClass and issubclass(_class, DesiredClass):
            if (DesiredClassInstance is None) or issubclass(_class, DesiredClassInstance):
                DesiredClassInstance = _class
            elif not issubclass(DesiredClassInstance, _class):
                raise RuntimeError(f"Multiple instances were found:\\n\\t{DesiredClassInstance}\\n\\t{_class}")
''', '''        if DesiredClassInstance is None or issubclass(_class, DesiredClassInstance):
            DesiredClassInstance = _class
        elif not issubclass(DesiredClassInstance, _class):
            raise RuntimeError(f"Multiple instances were found:\\n\\t{DesiredClassInstance}\\n\\t{_class}")
'''))

AN = "log/ansi_handler.py"
case("ansi-handle-with", (AN, '''        rv = self.filter(record)
        if rv and record.levelno >= self.level:
            self.acquire()
            try:
                self.emit(record)
            finally:
                self.release()
        return rv
''', '''        accepted = self.filter(record)
        if not accepted:
            return accepted
        if record.levelno < self.level:
            return accepted
        self.acquire()
        try:
            self.emit(record)
        finally:
            self.release()
        return accepted
'''))
case("ansi-format-helper", (AN, '''        try:
            if not self.use_azure and levelname in ColoredFormatter.COLORS:
                # just color the level name
                if record.levelno < logging.WARNING:
                    levelname_color = (
                        get_ansi_string(ColoredFormatter.COLORS[levelname]) + levelname + get_ansi_string()
                    )
                # otherwise color the wholes message
                else:
                    levelname_color = get_ansi_string(ColoredFormatter.COLORS[levelname]) + levelname
                    record.msg = str(org_message) + get_ansi_string()
                record.levelname = levelname_color

            if self.use_azure and levelname in ColoredFormatter.AZURE_COLORS:
                levelname_color = "##[" + ColoredFormatter.AZURE_COLORS[levelname] + "]"
                record.levelname = levelname_color

            return logging.Formatter.format(self, record)
        finally:
''', '''        try:
            if self.use_azure:
                if levelname in self.AZURE_COLORS:
                    record.levelname = f"##[{self.AZURE_COLORS[levelname]}]"
            elif levelname in self.COLORS:
                start = get_ansi_string(self.COLORS[levelname])
                if record.levelno >= logging.WARNING:
                    # color the wholes message
                    record.msg = f"{org_message}{get_ansi_string()}"
                    record.levelname = start + levelname
                else:
                    # just color the level name
                    record.levelname = start + levelname + get_ansi_string()

            return super().format(record)
        finally:
'''))
case("ansi-emit-else", (AN, '''            if record is None:
                return
            msg = self.format(record)
            if msg is None:
                return
            self.write(str(msg))
            self.write(self.terminator)
            self.flush()
''', '''            msg = None if record is None else self.format(record)
            if msg is not None:
                for text in (str(msg), self.terminator):
                    self.write(text)
                self.flush()
'''))
case("ansi-params", (AN, '''        params = tuple(int(p) for p in paramstring.split(";") if len(p) != 0)
        if len(params) == 0:
            params = (0,)

        return params
''', '''        numbers = [int(p) for p in paramstring.split(";") if p]
        return tuple(numbers) if numbers else (0,)
'''), (AN, '''        if command == "m":
            for param in params:
                if param in self.win32_calls:
                    func_args = self.win32_calls[param]
                    func = func_args[0]
                    args = func_args[1:]
                    kwargs = dict()
                    func(*args, **kwargs)
''', '''        if command != "m":
            return
        for param in params:
            if param not in self.win32_calls:
                continue
            func, *args = self.win32_calls[param]
            func(*args)
'''))

WC = "uefi/wincert.py"
case("wc-stream-remaining", (WC, '''class WinCertPkcs1(object):''', '''def _remaining(fs) -> int:
    here = fs.tell()
    end = fs.seek(0, io.SEEK_END)
    fs.seek(here)
    return end - here


class WinCertPkcs1(object):'''), (WC, '''        # only populate from file stream those parts that are complete in the file stream
        offset = fs.tell()
        fs.seek(0, 2)
        end = fs.tell()
        fs.seek(offset)

        if (end - offset) < WinCertPkcs1.STATIC_STRUCT_SIZE:  # size of the static header data
            raise ValueError("Invalid file stream size")

        self.Hdr_dwLength = struct.unpack("=I", fs.read(4))[0]
        self.Hdr_wRevision = struct.unpack("=H", fs.read(2))[0]
        self.Hdr_wCertificateType = struct.unpack("=H", fs.read(2))[0]
        self.hash_algorithm = uuid.UUID(bytes_le=fs.read(16))
        self.cert_data = None

        if (end - fs.tell()) < 1:
            raise ValueError("Invalid File stream. No data for signature cert data")

        if self.Hdr_dwLength < WinCertPkcs1.STATIC_STRUCT_SIZE:
            raise ValueError("Invalid dwLength")

        if (end - fs.tell()) < (self.Hdr_dwLength - WinCertPkcs1.STATIC_STRUCT_SIZE):
            raise ValueError("Invalid file stream size")

        self.cert_data = memoryview(fs.read(self.Hdr_dwLength - WinCertPkcs1.STATIC_STRUCT_SIZE))
''', '''        header_size = self.STATIC_STRUCT_SIZE
        if _remaining(fs) < header_size:
            raise ValueError("Invalid file stream size")

        self.Hdr_dwLength, self.Hdr_wRevision, self.Hdr_wCertificateType = struct.unpack("=IHH", fs.read(8))
        self.hash_algorithm = uuid.UUID(bytes_le=fs.read(16))
        self.cert_data = None

        available = _remaining(fs)
        if available < 1:
            raise ValueError("Invalid File stream. No data for signature cert data")

        data_size = self.Hdr_dwLength - header_size
        if data_size < 0:
            raise ValueError("Invalid dwLength")
        if available < data_size:
            raise ValueError("Invalid file stream size")

        self.cert_data = memoryview(fs.read(data_size))
'''))
case("wc-encode-one-pack", (WC, '''        output = b""
        output += struct.pack("=I", self.Hdr_dwLength)
        output += struct.pack("=H", self.Hdr_wRevision)
        output += struct.pack("=H", self.Hdr_wCertificateType)
        output += self.hash_algorithm.bytes_le
        output += self.cert_data

        return output
''', '''        header = struct.pack("=IHH", self.Hdr_dwLength, self.Hdr_wRevision, self.Hdr_wCertificateType)
        return b"".join([header, self.hash_algorithm.bytes_le, self.cert_data])
'''))
case("wc-guid-checks", (WC, '''        if dwLength < self._StructSize or dwLength > len(buffer):
            raise ValueError
        if wRevision != WinCert.REVISION:
            raise ValueError
        if wCertificateType != WinCert.WIN_CERT_TYPE_EFI_GUID:
            raise ValueError
        if cert_type != self._EFI_CERT_TYPE_PKCS7_GUID.bytes_le:
            raise ValueError
        self.Hdr_dwLength = dwLength
        self.Hdr_wRevision = wRevision
        self.Hdr_wCertificateType = wCertificateType
        self.cert_type = uuid.UUID(bytes_le=cert_type)
        self.cert_data = buffer[self._StructSize : self.Hdr_dwLength]

        # Return the remaining buffer, if any exists.
        return buffer[self.Hdr_dwLength :]
''', '''        kind = uuid.UUID(bytes_le=cert_type)
        acceptable = (
            self._StructSize <= dwLength <= len(buffer)
            and (wRevision, wCertificateType) == (WinCert.REVISION, WinCert.WIN_CERT_TYPE_EFI_GUID)
            and kind == self._EFI_CERT_TYPE_PKCS7_GUID
        )
        if not acceptable:
            raise ValueError
        body, remainder = buffer[:dwLength], buffer[dwLength:]
        self.cert_data = body[self._StructSize :]
        self.cert_type = kind
        self.Hdr_dwLength, self.Hdr_wRevision, self.Hdr_wCertificateType = dwLength, wRevision, wCertificateType
        return remainder
'''))

BMP = "uefi/bmp_object.py"
case("bmp-header-unpack", (BMP, '''        self.CharB = struct.unpack("=c", fs.read(1))[0]
        self.CharM = struct.unpack("=c", fs.read(1))[0]
        self.Size = struct.unpack("=I", fs.read(4))[0]
        self.Rsvd16_1 = struct.unpack("=H", fs.read(2))[0]
        self.Rsvd16_2 = struct.unpack("=H", fs.read(2))[0]
        self.ImageOffset = struct.unpack("=I", fs.read(4))[0]
''', '''        (self.CharB, self.CharM, self.Size, self.Rsvd16_1, self.Rsvd16_2, self.ImageOffset) = struct.unpack(
            "=ccIHHI", fs.read(BmpObject.STATIC_FILE_HEADER_SIZE)
        )
'''), (BMP, '''        if self.BitPerPixel == 1:
            return 2
        elif self.BitPerPixel == 4:
            return 16
        elif self.BitPerPixel == 8:
            return 256
        else:
            return 0
''', '''        return {1: 2, 4: 16, 8: 256}.get(self.BitPerPixel, 0)
'''))
case("bmp-colormap-comp", (BMP, '''                for i in range(ColorMapCount):
                    self.ColorMapList.append(BmpColorMap(fs))
''', '''                self.ColorMapList = [BmpColorMap(fs) for _ in range(ColorMapCount)]
'''), (BMP, '''        fs.write(struct.pack("=B", self.Blue))
        fs.write(struct.pack("=B", self.Green))
        fs.write(struct.pack("=B", self.Red))
        fs.write(struct.pack("=B", self.Reserved))
''', '''        fs.write(bytes([self.Blue, self.Green, self.Red, self.Reserved]))
'''))
case("bmp-read-int-helper", (BMP, '''class BmpColorMap(object):''', '''def _read(fs, fmt):
    (value,) = struct.unpack("=" + fmt, fs.read(struct.calcsize("=" + fmt)))
    return value


class BmpColorMap(object):'''), (BMP, '''        self.HeaderSize = struct.unpack("=I", fs.read(4))[0]
        self.PixelWidth = struct.unpack("=I", fs.read(4))[0]
        self.PixelHeight = struct.unpack("=I", fs.read(4))[0]
        self.Planes = struct.unpack("=H", fs.read(2))[0]
''', '''        self.HeaderSize = _read(fs, "I")
        self.PixelWidth = _read(fs, "I")
        self.PixelHeight = _read(fs, "I")
        self.Planes = _read(fs, "H")
'''))

TS = "tpm/tpm2_stream.py"
case("tpm-b-delegate", (TS, '''        super(TPM2B, self).__init__()
        self.data = data
        self.size = len(data)
        self.pack_string = ">H%ds" % self.size
''', '''        super().__init__()
        self.update_data(data)
'''), (TS, '''        self.data = data
        self.size = len(data)
        self.pack_string = ">H%ds" % self.size

    def marshal''', '''        self.size = len(data)
        self.pack_string = f">H{self.size}s"
        self.data = data

    def marshal'''), (TS, '''        return self.header.marshal() + b"".join(element.marshal() for element in self.stream_elements)
''', '''        result = self.header.marshal()
        for element in self.stream_elements:
            result += element.marshal()
        return result
'''))
case("tpm-stream-size", (TS, '''        self.stream_elements.append(element)
        self.stream_size += element.get_size()
        self.header.update_size(self.stream_size)
''', '''        new_size = self.stream_size + element.get_size()
        self.stream_elements.append(element)
        self.stream_size = new_size
        self.header.size = new_size
'''), (TS, '''        if size not in (1, 2, 4, 8):
            raise ValueError("Size must be 1, 2, 4, or 8 bytes!")

        self.pack_string = {1: ">B", 2: ">H", 4: ">L", 8: ">Q"}[size]
''', '''        formats = {1: ">B", 2: ">H", 4: ">L", 8: ">Q"}
        if size not in formats:
            raise ValueError("Size must be 1, 2, 4, or 8 bytes!")
        self.pack_string = formats[size]
'''))

SC = "uefi/status_codes.py"
case("status-shared", (SC, '''    def Convert32BitToString(self''', '''    def _lookup(self, value: int, top_bit: int) -> str:
        flag = 1 << top_bit
        table = self.ErrorCodeStrings if value & flag else self.NonErrorCodeStrings
        index = value & (flag - 1) if value & flag else value
        return table[index] if index < len(table) else "Undefined StatusCode"

    def Convert32BitToString(self'''), (SC, '''        StatusStrings = UefiStatusCode.NonErrorCodeStrings

        if (value >> 31) & 1 == 1:
            # error
            StatusStrings = UefiStatusCode.ErrorCodeStrings
            value = value & 0x7FFFFFFF  # mask off upper bit

        if value >= len(StatusStrings):
            return "Undefined StatusCode"

        return StatusStrings[value]
''', '''        return self._lookup(value, 31)
'''))
case("status-else", (SC, '''        StatusStrings = UefiStatusCode.NonErrorCodeStrings

        if (value >> 63) & 1 == 1:
            # error
            StatusStrings = UefiStatusCode.ErrorCodeStrings
            value = value & 0x7FFFFFFFFFFFFFFF  # mask off upper bit

        if value >= len(StatusStrings):
            return "Undefined StatusCode"

        return StatusStrings[value]
''', '''        is_error = ((value >> 63) & 1) != 0
        if is_error:
            value &= 0x7FFFFFFFFFFFFFFF
        names = UefiStatusCode.ErrorCodeStrings if is_error else UefiStatusCode.NonErrorCodeStrings
        if value < len(names):
            return names[value]
        return "Undefined StatusCode"
'''))
