"""Behaviour-preserving rewrites, sixth batch."""
from equiv_cases import case

FDF = "uefi/edk2/parsers/fdf_parser.py"
case("f6-local-clear", (FDF, '''                self.LocalVars = {}
                self.LocalVars.update(self.Dict)
''', '''                self.LocalVars.clear()
                self.LocalVars.update(self.Dict)
'''))
case("f6-local-copy", (FDF, '''                self.LocalVars = {}
                self.LocalVars.update(self.Dict)
''', '''                self.LocalVars = dict(self.Dict)
'''))
case("f6-include-helper", (FDF, '''                tokens = sline.split()
                if len(tokens) < 2:
                    raise RuntimeError("Unable to properly parse " + sline)
                include_file = tokens[1]
                sp = self.FindPath(include_file)
                if sp is None:
                    raise FileNotFoundError(include_file)
                self.Logger.debug("Opening Include File %s" % sp)
                self.InsertLinesFromFile(sp)
                continue
''', '''                self._include(sline)
                continue
'''), (FDF, '''    def ParseFile(self, filepath: str) -> None:
''', '''    def _include(self, line: str) -> None:
        parts = line.split()
        if len(parts) >= 2:
            name = parts[1]
            sp = self.FindPath(name)
            if sp is not None:
                self.Logger.debug("Opening Include File %s" % sp)
                self.InsertLinesFromFile(sp)
                return
            raise FileNotFoundError(name)
        raise RuntimeError("Unable to properly parse " + line)

    def ParseFile(self, filepath: str) -> None:
'''))
case("f6-file-def", (FDF, '''                        if len(file_def) != 2:  # check to make sure we can parse this file
                            raise RuntimeError("Unable to properly parse " + sline)

                        currentType = file_def[0].strip()  # get the type FILE
                        currentName = file_def[1].strip()  # get the name (guid or otherwise)
''', '''                        try:
                            currentType, currentName = [part.strip() for part in file_def]
                        except ValueError:
                            raise RuntimeError("Unable to properly parse " + sline)
'''))
case("f6-define-partition", (FDF, '''                tokens = sline.strip().replace("DEFINE", "").split("=", 1)
                if len(tokens) != 2:
                    raise RuntimeError("Unable to properly parse " + sline)
                self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
''', '''                name, equals, value = sline.strip().replace("DEFINE", "").partition("=")
                if not equals:
                    raise RuntimeError("Unable to properly parse " + sline)
                self.LocalVars[name.strip()] = value.strip()
                self.Logger.info(f"Key,values found for local vars: {name.strip()}, {value.strip()}")
'''))
case("f6-bracket", (FDF, '''                            sline = self.GetNextLine()
                            if sline is None:
                                raise RuntimeError("Missing closing bracket of FILE " + currentName)
                            sline = sline.strip("}{ ")
''', '''                            following = self.GetNextLine()
                            if following is None:
                                message = "Missing closing bracket of FILE " + currentName
                                raise RuntimeError(message)
                            sline = following.strip("}{ ")
'''))
case("f6-for-sentinel", (FDF, '''        sline = ""
        while sline is not None:
            sline = self.GetNextLine()

            if sline is None:
                break

''', '''        while True:
            sline = self.GetNextLine()
            if sline is None:
                break

'''))
case("f6-open-first", (FDF, '''        if not os.path.isabs(filepath):
            fp = self.FindPath(filepath)
        else:
            fp = filepath
        if fp is None:
            raise FileNotFoundError(filepath)
        self.Path = fp
        self.TargetFilePath = os.path.abspath(fp)
''', '''        fp = filepath if os.path.isabs(filepath) else self.FindPath(filepath)
        if fp is None:
            raise FileNotFoundError(filepath)
        self.TargetFilePath = os.path.abspath(fp)
        self.Path = fp
'''))
DEC = "uefi/edk2/parsers/dec_parser.py"
case("d6-parts", (DEC, '''        if len(op) == 2 and op[0].count(".") > 0:
            pass
        # otherwise it needs at least 4 parts
        elif len(op) < 4:
            raise Exception(f"Too few parts: {op}")
        # but also less than 5
        elif len(op) > 5:
            raise Exception(f"Too many parts: {rawtext}")
        elif len(op) == 5 and op[4].strip() != "{":
            raise Exception(f"Too many parts: {rawtext}")
''', '''        structured = len(op) == 2 and "." in op[0]
        if not structured:
            if len(op) < 4:
                raise Exception(f"Too few parts: {op}")
            if len(op) > 5 or (len(op) == 5 and op[4].strip() != "{"):
                raise Exception(f"Too many parts: {rawtext}")
'''))
case("d6-guid-order", (DEC, '''        t = rawtext.partition("=")
        self.name = t[0].strip()
        self.guidstring = t[2].strip()
        self.guid = GuidParser.uuid_from_guidstring(self.guidstring)
        if self.guid is None:
            raise ValueError("Could not parse guid")
''', '''        name, _, guid = rawtext.partition("=")
        self.name, self.guidstring = name.strip(), guid.strip()
        parsed = GuidParser.uuid_from_guidstring(self.guidstring)
        self.guid = parsed
        if parsed is None:
            raise ValueError("Could not parse guid")
'''))
case("d6-section-helper", (DEC, '''            elif InLibraryClassSection:
                if sline.strip()[0] == "[":
                    InLibraryClassSection = False
                else:
                    t = LibraryClassDeclarationEntry(self.PackageName, sline)
                    self.LibraryClasses.append(t)
                    continue

            elif InProtocolsSection:
                if sline.strip()[0] == "[":
                    InProtocolsSection = False
                else:
                    t = ProtocolDeclarationEntry(self.PackageName, sline)
                    self.Protocols.append(t)
                    continue

            elif InGuidsSection:
                if sline.strip()[0] == "[":
                    InGuidsSection = False
                else:
                    t = GuidDeclarationEntry(self.PackageName, sline)
                    self.Guids.append(t)
                    continue
''', '''            elif InLibraryClassSection:
                if sline.strip().startswith("["):
                    InLibraryClassSection = False
                else:
                    self.LibraryClasses.append(LibraryClassDeclarationEntry(self.PackageName, sline))
                    continue

            elif InProtocolsSection:
                InProtocolsSection = sline.strip()[0] != "["
                if InProtocolsSection:
                    self.Protocols.append(ProtocolDeclarationEntry(self.PackageName, sline))
                    continue

            elif InGuidsSection:
                if sline.strip()[0] != "[":
                    self.Guids.append(GuidDeclarationEntry(self.PackageName, sline))
                    continue
                InGuidsSection = False
'''))
BP = "uefi/edk2/parsers/base_parser.py"
case("b6-eval-prefix", (BP, '''        text = str(text).strip()
        if text.lower().startswith("!if "):
            text = text[3:].strip()
        elif text.lower().startswith("!elseif "):
            text = text[7:].strip()
        else:
            raise RuntimeError(f"Invalid conditional cannot be validated: {text}")
''', '''        text = str(text).strip()
        lowered = text.lower()
        is_if = lowered.startswith("!if ")
        if not is_if and not lowered.startswith("!elseif "):
            raise RuntimeError(f"Invalid conditional cannot be validated: {text}")
        text = text[3:].strip() if is_if else text[7:].strip()
'''))
case("b6-eval-operator-helper", (BP, '''            first_operand_index = -1
            # find the first operator
            for index, item in enumerate(expression):
                if self._IsOperator(item):
                    first_operand_index = index
                    break
            if first_operand_index == -1:
''', '''            first_operand_index = self._first_operator(expression)
            if first_operand_index == -1:
'''), (BP, '''    def EvaluateConditional(self, text: str) -> bool:
''', '''    def _first_operator(self, expression: list) -> int:
        for index, item in enumerate(expression):
            if self._IsOperator(item):
                return index
        return -1

    def EvaluateConditional(self, text: str) -> bool:
'''))
case("b6-eval-next", (BP, '''            first_operand_index = -1
            # find the first operator
            for index, item in enumerate(expression):
                if self._IsOperator(item):
                    first_operand_index = index
                    break
            if first_operand_index == -1:
''', '''            first_operand_index = next((index for index, item in enumerate(expression) if self._IsOperator(item)), -1)
            if first_operand_index == -1:
'''))
case("b6-eval-stray", (BP, '''            if operand == "NOT":
                # Special logic for handling the not
                if first_operand_index < 1:
                    raise RuntimeError(f"We have a stray operand {operand}")
''', '''            if first_operand_index < (1 if operand == "NOT" else 2):
                raise RuntimeError(f"We have a stray operand {operand}")
            if operand == "NOT":
                # Special logic for handling the not
'''), (BP, '''            else:
                if first_operand_index < 2:
                    raise RuntimeError(f"We have a stray operand {operand}")
                operator1 = expression[first_operand_index - 2]
''', '''            else:
                operator1 = expression[first_operand_index - 2]
'''))
case("b6-conv", (BP, '''        if isinstance(value, int):
            return value
        if isinstance(value, str) and value.upper() == "TRUE":
            return 1
        elif isinstance(value, str) and value.upper() == "FALSE":
            return 0
        elif isinstance(value, str) and value.upper().startswith("0X"):
            return int(value, 16)
        else:
            return int(value, 10)
''', '''        if isinstance(value, int):
            return value
        base = 10
        if isinstance(value, str):
            upper = value.upper()
            if upper in ("TRUE", "FALSE"):
                return int(upper == "TRUE")
            if upper.startswith("0X"):
                base = 16
        return int(value, base)
'''))
case("b6-compare-digits", (BP, '''        if not isinstance(ivalue, int) and not str.isdigit(value):
            self.Logger.error(f"{self.__class__}: Unknown value: {value} {ivalue.__class__}")
            self.Logger.debug(f"{self.__class__}: Conditional: {value} {cond}{value2}")
            raise ValueError("Unknown value")

        if not isinstance(ivalue2, int) and not str.isdigit(value2):
            self.Logger.error(f"{self.__class__}: Unknown value: {value2} {ivalue2}")
            self.Logger.debug(f"{self.__class__}: Conditional: {value} {cond} {value2}")
            raise ValueError("Unknown value")
''', '''        for converted, original in ((ivalue, value), (ivalue2, value2)):
            if not (isinstance(converted, int) or str.isdigit(original)):
                self.Logger.error(f"{self.__class__}: Unknown value: {original} {converted}")
                self.Logger.debug(f"{self.__class__}: Conditional: {value} {cond} {value2}")
                raise ValueError("Unknown value")
'''))
case("b6-conditional-else", (BP, '''            if already_been_true:
                self.PushConditional(False, True)
            else:
                self.PushConditional(True, True)
            return True
''', '''            self.PushConditional(not already_been_true, True)
            return True
'''))
case("b6-unformed-helper", (BP, '''        elif tokens[0].lower() == "!ifdef":
            if len(tokens) != 2:
                self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                raise RuntimeError("Invalid conditional", text)
            result = tokens[1] != self._MacroNotDefinedValue
            self.PushConditional(result, result)
            return True

        elif tokens[0].lower() == "!ifndef":
            if len(tokens) != 2:
                self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                raise RuntimeError("Invalid conditional", text)
            result = tokens[1] == self._MacroNotDefinedValue
            self.PushConditional(result, result)
            return True
''', '''        elif tokens[0].lower() in ("!ifdef", "!ifndef"):
            if len(tokens) != 2:
                self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                raise RuntimeError("Invalid conditional", text)
            result = tokens[1] != self._MacroNotDefinedValue
            if tokens[0].lower() == "!ifndef":
                result = not result
            self.PushConditional(result, result)
            return True
'''))
