package config_test

// published is the schema of configuration files, as it was published.
const published = `{
 "$schema": "https://json-schema.org/draft/2020-12/schema",
 "$id": "https://datadoghq.dev/orchestrion/schema.json",
 "type": "object",
 "required": [
  "meta"
 ],
 "anyOf": [
  {
   "required": [
    "aspects"
   ]
  },
  {
   "required": [
    "extends"
   ]
  }
 ],
 "properties": {
  "meta": {
   "type": "object",
   "required": [
    "name",
    "description"
   ],
   "properties": {
    "name": {
     "type": "string",
     "minLength": 1
    },
    "description": {
     "type": "string",
     "minLength": 1
    },
    "icon": {
     "type": "string",
     "enum": [
      "github",
      "codeberg",
      "gitlab",
      "bitbucket",
      "hextra",
      "hugo",
      "hugo-full",
      "warning",
      "one",
      "cards",
      "copy",
      "hamburger-menu",
      "markdown",
      "folder-tree",
      "card",
      "academic-cap",
      "adjustments",
      "annotation",
      "archive",
      "arrow-circle-down",
      "arrow-circle-left",
      "arrow-circle-right",
      "arrow-circle-up",
      "arrow-down",
      "arrow-left",
      "arrow-narrow-down",
      "arrow-narrow-left",
      "arrow-narrow-right",
      "arrow-narrow-up",
      "arrow-right",
      "arrow-sm-down",
      "arrow-sm-left",
      "arrow-sm-right",
      "arrow-sm-up",
      "arrow-up",
      "arrows-expand",
      "at-symbol",
      "backspace",
      "badge-check",
      "ban",
      "beaker",
      "bell",
      "book-open",
      "bookmark",
      "bookmark-alt",
      "briefcase",
      "cake",
      "calculator",
      "calendar",
      "camera",
      "cash",
      "chart-bar",
      "chart-pie",
      "chart-square-bar",
      "chat",
      "chat-alt",
      "chat-alt-2",
      "check",
      "check-circle",
      "chevron-double-down",
      "chevron-double-left",
      "chevron-double-right",
      "chevron-double-up",
      "chevron-down",
      "chevron-left",
      "chevron-right",
      "chevron-up",
      "chip",
      "clipboard",
      "clipboard-check",
      "clipboard-copy",
      "clipboard-list",
      "clock",
      "cloud",
      "cloud-download",
      "cloud-upload",
      "code",
      "cog",
      "collection",
      "color-swatch",
      "credit-card",
      "cube",
      "cube-transparent",
      "currency-bangladeshi",
      "currency-dollar",
      "currency-euro",
      "currency-pound",
      "currency-rupee",
      "currency-yen",
      "cursor-click",
      "database",
      "desktop-computer",
      "device-mobile",
      "device-tablet",
      "document",
      "document-add",
      "document-download",
      "document-duplicate",
      "document-remove",
      "document-report",
      "document-search",
      "document-text",
      "dots-circle-horizontal",
      "dots-horizontal",
      "dots-vertical",
      "download",
      "duplicate",
      "emoji-happy",
      "emoji-sad",
      "exclamation",
      "exclamation-circle",
      "external-link",
      "eye",
      "eye-off",
      "fast-forward",
      "film",
      "filter",
      "finger-print",
      "fire",
      "flag",
      "folder",
      "folder-add",
      "folder-download",
      "folder-open",
      "folder-remove",
      "gift",
      "globe",
      "globe-alt",
      "hand",
      "hashtag",
      "heart",
      "home",
      "identification",
      "inbox",
      "inbox-in",
      "information-circle",
      "key",
      "library",
      "light-bulb",
      "lightning-bolt",
      "link",
      "location-marker",
      "lock-closed",
      "lock-open",
      "login",
      "logout",
      "mail",
      "mail-open",
      "map",
      "menu",
      "menu-alt-1",
      "menu-alt-2",
      "menu-alt-3",
      "menu-alt-4",
      "microphone",
      "minus",
      "minus-circle",
      "minus-sm",
      "moon",
      "music-note",
      "newspaper",
      "office-building",
      "paper-airplane",
      "paper-clip",
      "pause",
      "pencil",
      "pencil-alt",
      "phone",
      "phone-incoming",
      "phone-missed-call",
      "phone-outgoing",
      "photograph",
      "play",
      "plus",
      "plus-circle",
      "plus-sm",
      "presentation-chart-bar",
      "presentation-chart-line",
      "printer",
      "puzzle",
      "qrcode",
      "question-mark-circle",
      "receipt-refund",
      "receipt-tax",
      "refresh",
      "reply",
      "rewind",
      "rss",
      "save",
      "save-as",
      "scale",
      "scissors",
      "search",
      "search-circle",
      "selector",
      "server",
      "share",
      "shield-check",
      "shield-exclamation",
      "shopping-bag",
      "shopping-cart",
      "sort-ascending",
      "sort-descending",
      "sparkles",
      "speakerphone",
      "star",
      "status-offline",
      "status-online",
      "stop",
      "sun",
      "support",
      "switch-horizontal",
      "switch-vertical",
      "table",
      "tag",
      "template",
      "terminal",
      "thumb-down",
      "thumb-up",
      "ticket",
      "translate",
      "trash",
      "trending-down",
      "trending-up",
      "truck",
      "upload",
      "user",
      "user-add",
      "user-circle",
      "user-group",
      "user-remove",
      "users",
      "variable",
      "video-camera",
      "view-boards",
      "view-grid",
      "view-grid-add",
      "view-list",
      "volume-off",
      "volume-up",
      "wifi",
      "x",
      "x-circle",
      "zoom-in",
      "zoom-out",
      "instagram",
      "facebook",
      "discord",
      "twitter",
      "mastodon",
      "youtube",
      "x-twitter",
      "linkedin",
      "slack"
     ]
    },
    "caveats": {
     "type": "string",
     "minLength": 1
    }
   },
   "additionalProperties": false
  },
  "extends": {
   "type": "array",
   "items": {
    "type": "string",
    "pattern": "^[.]{1,2}[/\\\\].+(?:\\.yml)?$"
   },
   "minItems": 1
  },
  "aspects": {
   "type": "array",
   "items": {
    "type": "object",
    "unevaluatedProperties": false,
    "allOf": [
     {
      "required": [
       "id"
      ],
      "properties": {
       "id": {
        "type": "string",
        "minLength": 1
       }
      }
     },
     {
      "$ref": "#/$defs/Aspect"
     }
    ]
   },
   "minItems": 1
  }
 },
 "additionalProperties": false,
 "$defs": {
  "Aspect": {
   "type": "object",
   "additionalProperties": false,
   "required": [
    "id",
    "join-point",
    "advice"
   ],
   "properties": {
    "id": {
     "type": "string",
     "minLength": 1
    },
    "join-point": {
     "$ref": "#/$defs/JoinPoint"
    },
    "advice": {
     "type": "array",
     "items": {
      "$ref": "#/$defs/Advice"
     },
     "minItems": 1
    },
    "tracer-internal": {
     "type": "boolean",
     "default": false
    }
   }
  },
  "JoinPoint": {
   "type": "object",
   "unevaluatedProperties": false,
   "oneOf": [
    {
     "$ref": "#/$defs/join-point/all-of"
    },
    {
     "$ref": "#/$defs/join-point/configuration"
    },
    {
     "$ref": "#/$defs/join-point/declaration-of"
    },
    {
     "$ref": "#/$defs/join-point/directive"
    },
    {
     "$ref": "#/$defs/join-point/function-body"
    },
    {
     "$ref": "#/$defs/join-point/function"
    },
    {
     "$ref": "#/$defs/join-point/function-call"
    },
    {
     "$ref": "#/$defs/join-point/import-path"
    },
    {
     "$ref": "#/$defs/join-point/method-call"
    },
    {
     "$ref": "#/$defs/join-point/not"
    },
    {
     "$ref": "#/$defs/join-point/one-of"
    },
    {
     "$ref": "#/$defs/join-point/package-name"
    },
    {
     "$ref": "#/$defs/join-point/package-filter"
    },
    {
     "$ref": "#/$defs/join-point/struct-definition"
    },
    {
     "$ref": "#/$defs/join-point/struct-literal"
    },
    {
     "$ref": "#/$defs/join-point/test-main"
    },
    {
     "$ref": "#/$defs/join-point/value-declaration"
    }
   ]
  },
  "join-point": {
   "all-of": {
    "required": [
     "all-of"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "all-of": {
      "type": "array",
      "items": {
       "$ref": "#/$defs/JoinPoint"
      },
      "minItems": 2
     }
    }
   },
   "configuration": {
    "required": [
     "configuration"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "configuration": {
      "type": "object",
      "additionalProperties": false,
      "patternProperties": {
       "^.*$": {
        "type": "string"
       }
      },
      "minProperties": 1
     }
    }
   },
   "declaration-of": {
    "required": [
     "declaration-of"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "declaration-of": {
      "type": "string",
      "pattern": "^.+\\.[\\p{L}_][\\p{L}_\\p{Nd}]*$"
     }
    }
   },
   "directive": {
    "required": [
     "directive"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "directive": {
      "type": "string",
      "pattern": "[\\w:]+"
     }
    }
   },
   "function-body": {
    "required": [
     "function-body"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "function-body": {
      "$ref": "#/$defs/JoinPoint"
     }
    }
   },
   "function": {
    "required": [
     "function"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "function": {
      "type": "array",
      "items": {
       "$ref": "#/$defs/join-point/function/$defs/option"
      },
      "minItems": 1
     }
    },
    "$defs": {
     "option": {
      "type": "object",
      "unevaluatedProperties": false,
      "oneOf": [
       {
        "required": [
         "name"
        ],
        "unevaluatedProperties": false,
        "properties": {
         "name": {
          "oneOf": [
           {
            "$ref": "#/$defs/go/identifier"
           },
           {
            "const": ""
           }
          ]
         }
        }
       },
       {
        "required": [
         "receiver"
        ],
        "unevaluatedProperties": false,
        "properties": {
         "receiver": {
          "oneOf": [
           {
            "$ref": "#/$defs/go/qualified-identifier"
           },
           {
            "type": "boolean"
           }
          ]
         }
        }
       },
       {
        "required": [
         "signature"
        ],
        "unevaluatedProperties": false,
        "properties": {
         "signature": {
          "type": "object",
          "properties": {
           "args": {
            "type": "array",
            "items": {
             "$ref": "#/$defs/go/qualified-identifier"
            }
           },
           "returns": {
            "type": "array",
            "items": {
             "$ref": "#/$defs/go/qualified-identifier"
            }
           }
          },
          "additionalProperties": false
         }
        }
       },
       {
        "required": [
         "signature-contains"
        ],
        "unevaluatedProperties": false,
        "properties": {
         "signature-contains": {
          "type": "object",
          "properties": {
           "args": {
            "type": "array",
            "items": {
             "$ref": "#/$defs/go/qualified-identifier"
            }
           },
           "returns": {
            "type": "array",
            "items": {
             "$ref": "#/$defs/go/qualified-identifier"
            }
           }
          },
          "additionalProperties": false
         }
        }
       },
       {
        "required": [
         "result-implements"
        ],
        "unevaluatedProperties": false,
        "properties": {
         "result-implements": {
          "$ref": "#/$defs/go/qualified-identifier"
         }
        }
       },
       {
        "required": [
         "final-result-implements"
        ],
        "unevaluatedProperties": false,
        "properties": {
         "final-result-implements": {
          "$ref": "#/$defs/go/qualified-identifier"
         }
        }
       },
       {
        "required": [
         "argument-implements"
        ],
        "unevaluatedProperties": false,
        "properties": {
         "argument-implements": {
          "$ref": "#/$defs/go/qualified-identifier"
         }
        }
       }
      ]
     }
    }
   },
   "function-call": {
    "required": [
     "function-call"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "function-call": {
      "$ref": "#/$defs/go/qualified-identifier"
     }
    }
   },
   "import-path": {
    "required": [
     "import-path"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "import-path": {
      "type": "string",
      "minLength": 1
     }
    }
   },
   "method-call": {
    "required": [
     "method-call"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "method-call": {
      "type": "object",
      "required": [
       "receiver",
       "name"
      ],
      "properties": {
       "receiver": {
        "$ref": "#/$defs/go/qualified-identifier"
       },
       "name": {
        "$ref": "#/$defs/go/identifier"
       },
       "match": {
        "type": "string",
        "enum": [
         "pointer-only",
         "value-only",
         "any"
        ],
        "default": "any"
       }
      },
      "additionalProperties": false
     }
    }
   },
   "not": {
    "required": [
     "not"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "not": {
      "$ref": "#/$defs/JoinPoint"
     }
    }
   },
   "one-of": {
    "required": [
     "one-of"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "one-of": {
      "type": "array",
      "items": {
       "$ref": "#/$defs/JoinPoint"
      },
      "minItems": 2
     }
    }
   },
   "package-name": {
    "required": [
     "package-name"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "package-name": {
      "$ref": "#/$defs/go/identifier"
     }
    }
   },
   "package-filter": {
    "required": [
     "package-filter"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "package-filter": {
      "oneOf": [
       {
        "type": "string",
        "minLength": 1
       },
       {
        "type": "object",
        "additionalProperties": false,
        "anyOf": [
         {
          "required": [
           "pattern"
          ]
         },
         {
          "required": [
           "root"
          ],
          "properties": {
           "root": {
            "const": true
           }
          }
         }
        ],
        "properties": {
         "root": {
          "type": "boolean",
          "default": false
         },
         "pattern": {
          "type": "string",
          "minLength": 1
         }
        }
       }
      ]
     }
    }
   },
   "struct-definition": {
    "required": [
     "struct-definition"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "struct-definition": {
      "$ref": "#/$defs/go/qualified-identifier"
     }
    }
   },
   "struct-literal": {
    "required": [
     "struct-literal"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "struct-literal": {
      "oneOf": [
       {
        "type": "object",
        "required": [
         "type",
         "field"
        ],
        "properties": {
         "type": {
          "$ref": "#/$defs/go/qualified-identifier"
         },
         "field": {
          "$ref": "#/$defs/go/identifier"
         }
        },
        "additionalProperties": false
       },
       {
        "type": "object",
        "required": [
         "type"
        ],
        "properties": {
         "type": {
          "$ref": "#/$defs/go/qualified-identifier"
         },
         "match": {
          "type": "string",
          "enum": [
           "value-only",
           "pointer-only",
           "any"
          ],
          "default": "any"
         }
        },
        "additionalProperties": false
       }
      ]
     }
    }
   },
   "test-main": {
    "required": [
     "test-main"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "test-main": {
      "type": "boolean"
     }
    }
   },
   "value-declaration": {
    "required": [
     "value-declaration"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "value-declaration": {
      "$ref": "#/$defs/go/type-ref"
     }
    }
   }
  },
  "Advice": {
   "type": "object",
   "unevaluatedProperties": false,
   "oneOf": [
    {
     "$ref": "#/$defs/advice/assign-value"
    },
    {
     "$ref": "#/$defs/advice/prepend-statements"
    },
    {
     "$ref": "#/$defs/advice/append-args"
    },
    {
     "$ref": "#/$defs/advice/replace-function"
    },
    {
     "$ref": "#/$defs/advice/add-blank-import"
    },
    {
     "$ref": "#/$defs/advice/inject-declarations"
    },
    {
     "$ref": "#/$defs/advice/add-struct-field"
    },
    {
     "$ref": "#/$defs/advice/wrap-expression"
    }
   ]
  },
  "advice": {
   "assign-value": {
    "required": [
     "assign-value"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "assign-value": {
      "$ref": "#/$defs/code-template",
      "unevaluatedProperties": false
     }
    }
   },
   "prepend-statements": {
    "required": [
     "prepend-statements"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "prepend-statements": {
      "unevaluatedProperties": false,
      "allOf": [
       {
        "$ref": "#/$defs/code-template"
       },
       {
        "properties": {
         "order": {
          "type": "integer",
          "default": 0
         },
         "namespace": {
          "type": "string"
         }
        }
       }
      ]
     }
    }
   },
   "append-args": {
    "required": [
     "append-args"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "append-args": {
      "type": "object",
      "additionalProperties": false,
      "required": [
       "type",
       "values"
      ],
      "properties": {
       "type": {
        "$ref": "#/$defs/go/type-ref"
       },
       "values": {
        "type": "array",
        "items": {
         "$ref": "#/$defs/code-template",
         "unevaluatedProperties": false
        },
        "minItems": 1
       }
      }
     }
    }
   },
   "replace-function": {
    "required": [
     "replace-function"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "replace-function": {
      "$ref": "#/$defs/go/qualified-identifier"
     }
    }
   },
   "add-blank-import": {
    "required": [
     "add-blank-import"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "add-blank-import": {
      "type": "string",
      "minLength": 1
     }
    }
   },
   "inject-declarations": {
    "required": [
     "inject-declarations"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "inject-declarations": {
      "unevaluatedProperties": false,
      "allOf": [
       {
        "$ref": "#/$defs/code-template"
       },
       {
        "properties": {
         "links": {
          "type": "array",
          "items": {
           "type": "string",
           "minLength": 1
          },
          "uniqueItems": true
         }
        }
       }
      ]
     }
    }
   },
   "add-struct-field": {
    "required": [
     "add-struct-field"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "add-struct-field": {
      "type": "object",
      "additionalProperties": false,
      "required": [
       "name",
       "type"
      ],
      "properties": {
       "name": {
        "$ref": "#/$defs/go/identifier"
       },
       "type": {
        "$ref": "#/$defs/go/type-ref"
       }
      }
     }
    }
   },
   "wrap-expression": {
    "required": [
     "wrap-expression"
    ],
    "unevaluatedProperties": false,
    "properties": {
     "wrap-expression": {
      "$ref": "#/$defs/code-template",
      "unevaluatedProperties": false
     }
    }
   }
  },
  "code-template": {
   "type": "object",
   "required": [
    "template"
   ],
   "properties": {
    "imports": {
     "type": "object",
     "additionalProperties": false,
     "patternProperties": {
      "^[\\p{L}_][\\p{L}_\\p{Nd}]*$": {
       "type": "string",
       "minLength": 1
      }
     }
    },
    "template": {
     "type": "string",
     "minLength": 1
    },
    "lang": {
     "type": "string",
     "pattern": "^go1[.]\\d+$"
    }
   }
  },
  "go": {
   "identifier": {
    "type": "string",
    "pattern": "^[\\p{L}_][\\p{L}_\\p{Nd}]*$"
   },
   "qualified-identifier": {
    "type": "string",
    "pattern": "^(.+\\.)?[\\p{L}_][\\p{L}_\\p{Nd}]*$"
   },
   "type-ref": {
    "type": "string",
    "oneOf": [
     {
      "pattern": "^[*]?(.+\\.)?[\\p{L}_][\\p{L}_\\p{Nd}]*$"
     },
     {
      "pattern": "^interface\\{\\}$"
     }
    ]
   }
  }
 }
}`
