import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
XMLF=["src/lib.rs","src/law.rs","src/article.rs","src/paragraph.rs","src/sentence.rs","src/text.rs","src/line.rs","src/class.rs","src/structs.rs","src/contents.rs","src/list.rs","src/remarks.rs","src/table.rs","src/table_of_contents.rs","src/suppl_provision.rs","src/appdx.rs","src/fig.rs"]
p("C01","Reading a law XML document yields exactly the document's content",
 "For every document that conforms to the law standard XML schema, reading it succeeds and the resulting law holds exactly what the document says: every element, attribute value and text run, in document order, under the right parent, with schema defaults for absent optional attributes and nothing added, dropped, merged across elements or moved.",
 ["inputs"],"all schema-valid law documents over the whole element vocabulary (main text, tables of contents, amendments, tables, figures, notes, styles, lists, supplementary provisions, appendices), with element nesting up to a bounded depth",
 "The repository's tests read one bundled statute; the schema has more than 150 element types, each with optional attributes and nested alternatives, and a wrong tag name, default or ordering in any of them only shows on documents that use it.",
 XMLF,[("one reader per element type, composed recursively","src/*.rs impl Parser"),("entry point","src/lib.rs parse_xml")])
p("C02","Writing a law to XML and reading it back gives the same law",
 "For every law the model can hold, writing it as XML succeeds and reading that XML back yields an equal law (equal up to splitting of adjacent text runs and empty text runs, which XML cannot express); writing the re-read law again gives an equivalent document.",
 ["inputs"],"all law values whose strings are XML characters and not whitespace-only, built from any combination of the public model types",
 "Each element type has its own hand-written writer and reader that must agree on every name, attribute and ordering; the tests only write the one statute they read and compare nothing but success.",
 XMLF,[("one writer per element type","src/*.rs impl ToXmlElement"),("matching reader","src/*.rs impl Parser")])
p("C03","Written XML uses the schema's own element and attribute names and order",
 "For every law, the XML written is a well-formed document whose elements, attributes, attribute values and text are those the law standard XML schema prescribes for that content, in schema order, so that other consumers of the schema can read it.",
 ["inputs"],"all law values as for the round trip; attribute order and whitespace between elements are free",
 "A wrong name that reader and writer share, or content put under a wrong element, passes any self round trip; deciding it needs an independent statement of the vocabulary applied to every element type.",
 XMLF,[("element writers","src/*.rs impl ToXmlElement / ToXmlElementWithName")])
p("C04","The XML spelling of a document does not change the law that is read",
 "Two documents that differ only in XML spelling (comments, processing instructions, CDATA sections, character and entity references, whitespace between elements, attribute order and quoting, empty-element form, byte-order mark, XML declaration) are read as equal laws.",
 ["inputs"],"all schema-valid documents and all combinations of spelling changes placed anywhere XML allows them",
 "The interaction of comment or CDATA placement with every reader that walks child nodes positionally cannot be sampled by one hand-formatted file.",
 XMLF,[("generic XML front end","src/lib.rs parse_xml"),("positional child walking","src/law.rs, src/article.rs, src/list.rs, src/text.rs")])
p("C05","Reading never panics: every byte string gives a law or an error",
 "Reading any byte string as a law document returns either a law or an error value; it never panics, overflows or fails to return.",
 ["inputs"],"all byte strings, well-formed or not, including valid documents with attributes, elements or text deleted, duplicated, swapped or corrupted, with nesting depth bounded so that the call stack is not the limit",
 "The inputs that reach an unchecked assumption are malformed in specific ways (a missing attribute, a childless element) that a test of good files never contains.",
 XMLF,[("parse_xml and all element readers","src/lib.rs, src/*.rs impl Parser")])
p("C06","Documents that break the schema are rejected with an error naming the culprit",
 "A document that lacks a required attribute or element, carries a value outside its type in an attribute that numbers, types or dates something, or has an element of another kind where the schema allows none is not accepted as if it were fine: reading it returns an error of the matching kind that names the attribute or element concerned. (Presentational attributes such as alignment fall back to their defaults.)",
 ["inputs"],"all schema-valid documents with one structural defect injected at any element that the reader validates (required attributes, typed attributes, required children, unknown children of structural elements, wrong root)",
 "There are hundreds of (element, defect) pairs and any of them may be silently skipped together with the content underneath; the tests contain no invalid document.",
 XMLF+["src/result.rs"],[("error construction","src/result.rs"),("attribute access with validation","src/lib.rs get_attribute*")])
p("C07","File and stream entry points match the in-memory ones and report failures",
 "Writing to any sink produces a document equivalent to the in-memory one whatever chunks the sink accepts, a sink that fails at any point makes the write return an error, and reading from a file equals reading its bytes, with a missing or unreadable file reported as an error.",
 ["inputs","fault_sequences"],"all laws, all patterns of partial, interrupted or zero-length writes, and a failure injected at every write of the sequence",
 "Tests write to a real file that never fails; partial acceptance and failure at the n-th write are never exercised.",
 ["src/lib.rs"],[("write_file, to_xml, parse_xml_file","src/lib.rs")])
p("C08","Number keys used in XML attributes round-trip and malformed keys are rejected",
 "Every structured number (base, branch numbers, optional range end) has a key notation that reads back to the same number, distinct numbers have distinct keys, and strings outside the notation are rejected with an error rather than read as some number.",
 ["inputs"],"all structured numbers with any count of branch numbers and range end, and all strings over and near the key alphabet",
 "The notation composes three repeated parts; losing or repeating one shows only for particular combinations such as a range whose start has two branches.",
 ["src/article_number.rs"],[("num_str / from_num_str / FromStr","src/article_number.rs")])
p("C09","Heading labels (第…条 and the like) and structured numbers translate both ways",
 "For every structured number, its printed heading label for part, chapter, section, subsection, division, article and paragraph is read back as that number, whichever digit style and branch particle is used; a string that is not such a label is reported as not being one, and no string makes the reader panic.",
 ["inputs"],"all numbers within the printable range with branches and ranges, all label kinds, ASCII, full-width and kanji digits, both branch particles, and arbitrary strings for totality",
 "The label grammar is a product of seven kinds, four digit styles, branch lists and ranges; each combination goes through different capture groups, and tests cover a handful.",
 ["src/article_number.rs"],[("parse_article_number, *_text","src/article_number.rs")])
p("C10","Item labels print and parse consistently in all sixteen styles",
 "For every item label style, printing a number in that style and parsing the result gives back that number, its branches, its range end and the style; distinct numbers print distinctly; no string makes printing or parsing panic and strings that are no label are reported as such.",
 ["inputs"],"all sixteen styles, every number that the style can express unambiguously, with branches and ranges, and arbitrary strings for totality",
 "Sixteen styles times ranges and branches, with overlapping alphabets, exceed any table of examples; errors sit at specific letters such as V or at multi-letter strings.",
 ["src/article_number.rs"],[("item_text, parse_item_number, ItemPattern","src/article_number.rs")])
p("C11","Article lists contain every article once, in order, with its true position",
 "Listing the articles of a main or supplementary provision yields every article exactly once in document order, and the numbered listing gives each the numbers of exactly the part, chapter, section, subsection and division that enclose it; provisions made of bare paragraphs are listed as the paragraphs they contain.",
 ["inputs"],"all provision trees with any mix and depth of headings and articles, including articles before, between and after headings",
 "Enclosing numbers depend on which of five optional levels are present and on what preceded the article; stale or shadowed values need sibling combinations that a single statute does not contain.",
 ["src/utils.rs"],[("article_list_from_*, with_number_article_list_from_*, WithNumberArticle","src/utils.rs")])
p("C12","Derived tables of contents list each heading and article once, in order",
 "The table of contents derived from a main or supplementary provision has one entry for each heading and article in document order, carrying its own title and number and the numbers of exactly the headings that enclose it.",
 ["inputs"],"all provision trees with any mix and depth of headings and articles",
 "An entry is wrong only when some earlier sibling or deeper heading left its number behind, so it takes particular sequences of siblings to see.",
 ["src/utils.rs"],[("toc_list_from_main_provision, toc_list_from_suppl_provision, Toc","src/utils.rs")])
p("C13","Text extraction returns all text of a provision, indexed and in order",
 "Extracting text from paragraphs and articles yields every sentence of the paragraph, its items and all ten levels of sub-items once, in reading order, with the path of numbers that leads to it, ruby reduced to its base text, superscripts and subscripts marked, and table cells included.",
 ["inputs"],"all paragraphs and articles with items nested to any of the ten levels, sentences, columns and tables with any inline content",
 "Each of the eleven levels has its own copy of the traversal; a level that drops tables or mislabels its index is only visible on texts that use that level.",
 ["src/utils.rs"],[("text_info_list_from_paragraph, text_from_*, table_to_str, sentence_element_to_str","src/utils.rs")])
p("C14","Structuring plain text recovers the headings, articles and items it states",
 "For every plain-text law laid out with the usual labels, structuring it yields the tree those labels state: parts down to divisions, articles with captions, paragraphs, and items nested by label style, each with its number and text, and supplementary provisions separately.",
 ["inputs"],"all well-formed label trees: any heading levels, paragraphs, item label styles per level, steps back by several levels, captions, branch numbers, deleted ranges and continuation lines",
 "Nesting is inferred from the sequence of label styles; which step goes wrong depends on the combination of ancestors, so single example texts do not settle it.",
 ["src/parse_from_text.rs","src/article_number.rs","src/lib.rs"],[("parse_body, parse_line_contents, split_number","src/parse_from_text.rs"),("parse_text","src/lib.rs")])
p("C15","Structuring plain text always terminates with a law or an error",
 "For every text, date, number and title, structuring plain text returns a law or an error value: it never panics and never runs forever.",
 ["inputs"],"all texts, in particular all sequences of label-like lines in any order, and all year, month and day values",
 "Which line sequences leave the line-by-line state machine without progress is a property of all sequences, not of the well-formed ones tests use.",
 ["src/parse_from_text.rs","src/article_number.rs","src/lib.rs"],[("peek/consume loops","src/parse_from_text.rs parse_body"),("parse_text","src/lib.rs")])
p("C16","Structuring plain text loses none of the text",
 "When structuring a plain-text law succeeds, every line's wording is present in the resulting law, in order: labels as numbers, headings as titles, captions as captions and the rest as sentences; if some line cannot be placed the call returns an error instead of leaving it out.",
 ["inputs"],"all texts made of label-like and ordinary lines in any order",
 "Silent truncation depends on which label kind appears in which position; it must be excluded for every sequence of lines.",
 ["src/parse_from_text.rs"],[("parse_body","src/parse_from_text.rs")])
p("C17","Laws survive JSON serialisation unchanged",
 "Serialising any law to JSON through the provided serialisation and deserialising it gives an equal law, and the JSON of equal laws is identical.",
 ["inputs"],"all law values, including every enumeration alternative and absent optional field",
 "The data model is a large recursive type; an attribute on any one field can make some value unserialisable or asymmetric.",
 XMLF,[("derived Serialize/Deserialize on every model type","src/*.rs")])
p("C18","Results depend only on the arguments, and the library writes nothing else",
 "Calling any of the library's functions repeatedly, in any order and from several threads gives the same results as calling it alone (for written XML: the same document; the order of attributes is free), leaves its arguments unchanged, and writes nothing to standard output or standard error.",
 ["histories","schedules","inputs"],"all sequences and thread interleavings of calls to the public entry points on a pool of laws, texts and labels",
 "Hidden state or stray output shows only after particular earlier calls or on particular branches; tests call each function once.",
 ["src/lib.rs","src/article_number.rs","src/parse_from_text.rs","src/utils.rs"],[("all public functions","src/lib.rs, src/utils.rs, src/article_number.rs")])
p("C19","A law structured from plain text survives being written to XML and read back",
 "Every law obtained by structuring plain text can be written as XML, and reading that XML yields the same law.",
 ["inputs"],"all texts for which structuring succeeds, including arbitrary line sequences",
 "It composes three independent parts of the library over all inputs; particular numbers and absent labels produced by structuring are never fed to the writer in tests.",
 ["src/lib.rs","src/parse_from_text.rs","src/law.rs"],[("parse_text, to_xml, parse_xml","src/lib.rs")])
p("C20","Promulgation dates are mapped to the right era and year, or rejected",
 "For every Western date given when structuring text, the resulting law carries the Japanese era in force on that date and the year within that era, with month and day as given; dates that do not exist or precede the eras are rejected with an error.",
 ["inputs"],"every calendar date from the start of the Meiji era for several centuries, with and without month and day, and all impossible dates around them",
 "Era boundaries fall inside years and months may be absent; correctness must hold at every boundary day, which examples do not enumerate.",
 ["src/lib.rs"],[("parse_text","src/lib.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), [len(x['title']) for x in P])
