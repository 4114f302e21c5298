PRE25 = r'''
from latex2json.structure.token_factory import TokenFactory
def through(d):
    return TokenFactory().create(d).model_dump(mode="json", exclude_none=True)
text = {"type": "text", "content": "w"}
'''
B("b25a_theorems_lose_styles", "C25", [("latex2json/structure/tokens/base.py", '''            labels=data.get("labels"),
            styles=data.get("styles"),
            name=data.get("name"),
''', '''            labels=data.get("labels"),
            name=data.get("name"),
''')], PRE25 + r'''
d = {"type": "math_env", "content": [text], "name": "x", "styles": ["bold"]}
assert through(d) == d, through(d)
''', "a theorem within styled text", "its styles are gone")
B("b25b_empty_values", "C25", [("latex2json/structure/tokens/base.py", '''            return {k: BaseToken.serialize_value(v, **kwargs) for k, v in val.items()}
''', '''            out = {k: BaseToken.serialize_value(v, **kwargs) for k, v in val.items()}
            return {k: v for k, v in out.items() if v}
''')], PRE25 + r'''
d = {"type": "bibitem", "content": "x", "cite_key": "k", "format": "bibtex", "fields": {"note": "", "year": "1999"}}
assert through(d) == d, through(d)
''', "a field of a record, or a placeholder of a formula, with nothing in it", "it is gone")
B("b25c_span_of_one", "C25", [("latex2json/structure/tokens/tabular.py", '''                        if isinstance(cell_content, list):
                            cell_content = cls._process_nested_list(
                                cell_content, create_token
                            )
''', '''                        if isinstance(cell_content, list) and "rowspan" in cell:
                            cell_content = cls._process_nested_list(
                                cell_content, create_token
                            )
''')], PRE25 + r'''
d = {"type": "tabular", "content": [[{"content": [{"type": "date", "content": "x"}, text], "colspan": 2}]]}
assert through(d)["content"][0][0]["content"] == [text], through(d)
''', "a cell that spans columns only, with tokens in it", "its tokens are not made, so that fields are lost")
