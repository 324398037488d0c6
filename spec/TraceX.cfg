INIT Init
NEXT NextX
VIEW View
ALIAS Alias
